//go:build vhook

package mapsched

import "aqwari.net/xml/internal/vhook"

const Controlled = true

func set(f func(string, int) []int) { vhook.Order = f }
