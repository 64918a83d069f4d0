package main

import "unicode"

// printable runes of the basic plane
var printable = &unicode.RangeTable{R16: []unicode.Range16{{Lo: 0x20, Hi: 0x7e, Stride: 1}, {Lo: 0xa1, Hi: 0xff, Stride: 1}, {Lo: 0x400, Hi: 0x45f, Stride: 1}}}
