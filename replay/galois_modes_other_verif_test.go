//go:build !(amd64 && !noasm && !appengine && !gccgo)

package galois

func vModes() []vMode { return []vMode{{"portable", func() {}}} }
