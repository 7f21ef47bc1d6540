package main

import "go/types"

var typeByte = typeOf(types.Typ[types.Uint8])
var typeInt = typeOf(types.Typ[types.Int])
var typeString = typeOf(types.Typ[types.String])
