// Code generated from math/rand; the rest of the package is hand-written.

package smrand

import orig "math/rand"

var New = orig.New
var NewSource = orig.NewSource
var NewZipf = orig.NewZipf

type Rand = orig.Rand
type Source = orig.Source
type Source64 = orig.Source64
type Zipf = orig.Zipf
