package collate

import "github.com/xhd2015/xgo/cmd/xgo/internal/vendir/golang.org/x/text/internal/colltab"

var _ = colltab.Ignore
const availableLocales = "und"
var locales = [...]tableIndex{{0,0}}
var mainLookup [1024]uint16
var mainValues [4096]uint32
var mainExpandElem [16]uint32
var mainContractElem [16]uint32
type ctEntry = struct{ L, H, N, I uint8 }
var mainCTEntries = [1]struct{ L, H, N, I uint8 }{}
const varTop = 0x30e
