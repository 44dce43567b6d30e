package main

import (
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

func main() { zv.Main(propC01(), propC02(), propC03(), propC04(), propC05(), propC29(), propC06()) }
