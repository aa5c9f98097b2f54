// Command cli checks the gledger program from outside
package main

import "verifharness/fw"

func main() { fw.Main(false) }
