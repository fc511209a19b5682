package unitdb

// VC_C04_lookup: a lookup answers the entries in memory followed by the unexpired
// ones of the topic's chain of window blocks, block by block and in each from the
// newest down, until the limit, the end of the chain, the cutoff, or a block of
// another topic.
func VC_C04_lookup() { vcLookup() }
