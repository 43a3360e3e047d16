// Command zmc decides properties of noise.
package main

import "verif.local/rt/mc"

func main() { mc.Main() }
