package main

import "github.com/gernest/requiemdb/internal/zverif/zv"

func main() { zv.Main(propC15(), propC16()) }
