package main

import "github.com/gernest/requiemdb/internal/zverif/zv"

func main() { zv.Main(propC20(), propC21(), propC22(), propC28(), propC31(), propC33()) }
