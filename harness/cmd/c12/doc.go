//go:build !verifinstr

// Built by build.sh with the tag verifinstr.
package main

func main() {}
