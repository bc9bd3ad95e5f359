package asn1

import "github.com/dufourgilles/emberlib/errors"

// ghost client: what WriteReal appends to any buffer is what ReadReal reads back, whatever follows it.
func ghostReal(w *ASNWriter, x float64, tail []byte) (float64, errors.Error, *ASNReader) {
	n := w.Len()
	if e := w.WriteReal(x); e != nil {
		return 0, e, nil
	}
	all := make([]byte, w.Len())
	w.Read(all)
	p := append(all[n:len(all):len(all)], tail...)
	a := NewASNReader(p)
	y, err := a.ReadReal()
	return y, err, a
}
