// Package table stands in for github.com/phil-mansfield/table, which is not available offline.
package table

import "errors"

// Data holds the columns of the tables that a check has set up, by file name.
var Data = map[string][][]float64{}

// ReadTable returns copies of columns of a table in Data.
func ReadTable(file string, idxs []int, config interface{}) ([][]float64, error) {
	cols, ok := Data[file]
	if !ok {
		return nil, errors.New("table: no such file")
	}
	out := make([][]float64, len(idxs))
	for i, idx := range idxs {
		if idx < 0 || idx >= len(cols) {
			return nil, errors.New("table: no such column")
		}
		out[i] = append([]float64{}, cols[idx]...)
	}
	return out, nil
}
