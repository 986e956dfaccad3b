// Command harness runs the monitors of one property against the code in /repo.
package main

import (
	"os"

	"verif/amf"
	"verif/codec"
	"verif/cross"
	"verif/flv"
	"verif/gop"
	"verif/mon"
	"verif/sips"
	"verif/ts"
)

func main() {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	var ps []*mon.Prop
	ps = append(ps, amf.Props()...)
	ps = append(ps, flv.Props()...)
	ps = append(ps, codec.Props()...)
	ps = append(ps, gop.Props()...)
	ps = append(ps, ts.Props()...)
	ps = append(ps, sips.Props()...)
	ps = append(ps, cross.Props()...)
	mon.Main(root, ps)
}
