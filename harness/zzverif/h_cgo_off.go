//go:build zzcgo && !cgo

package zzverif

import cgo "github.com/pjbgf/sha1cd/cgo"

func cgoMask(w *[80]uint32) uint32 { return cgo.CalculateDvMask(w) }
