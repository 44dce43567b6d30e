package main

import "github.com/gernest/requiemdb/internal/zverif/zv"

func main() { zv.Main(propC23(), propC24()) }
