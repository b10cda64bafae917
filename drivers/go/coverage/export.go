package cpp

// VerifIsEnabled exports the query for the driver.
func VerifIsEnabled() bool { return isCppCoverageEnabled() }
