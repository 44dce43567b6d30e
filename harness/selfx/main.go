package main

import "github.com/gernest/requiemdb/internal/zverif/zv"

func main() { zv.Main(propC25(), propC26()) }
