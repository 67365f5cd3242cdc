package sym

import "math"

func floatBits32(f float32) uint32 { return math.Float32bits(f) }
func floatBits64(f float64) uint64 { return math.Float64bits(f) }
