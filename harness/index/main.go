package main

import "github.com/gernest/requiemdb/internal/zverif/zv"

func main() { zv.Main(propC11(), propC12(), propC13(), propC14()) }
