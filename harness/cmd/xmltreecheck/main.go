// Command xmltreecheck decides the properties of package xmltree (C01-C07).
package main

import (
	"aqwari.net/xml/verif/mc"
)

func main() {
	mc.Main(c01(), c02(), c03(), c04(), c05(), c06(), c07())
}
