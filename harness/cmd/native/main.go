// Command native is generated at run time (overlay); this file only keeps the package in place.
package main

func main() {}
