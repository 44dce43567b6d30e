package main

import "github.com/gernest/requiemdb/internal/zverif/zv"

func main() { zv.Main(propC17(), propC18(), propC19()) }
