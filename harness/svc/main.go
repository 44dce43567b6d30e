package main

import "github.com/gernest/requiemdb/internal/zverif/zv"

func main() {
	zv.Main(propC07(), propC08(), propC09(), propC10(), propC27(), propC30(), propC32(), propC34(), propC35())
}
