//go:build vhook

package sched

import "aqwari.net/xml/internal/vhook"

// Controlled is true in builds whose statements are scheduling points.
const Controlled = true

func init() { vhook.OnPoint = point }
