package simrt

// seedRuntime sets the seed of the runtime's map randomness. Its body is in the
// patched runtime package (see instrument).
func seedRuntime(seed uint64)

// SeedRuntime makes the order of map iterations a function of the seed.
func SeedRuntime(seed uint64) { seedRuntime(seed) }
