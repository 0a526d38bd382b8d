package kit

// A fixed VAPID key pair (generated once; only used against fake endpoints).
const (
	VapidPub  = "BF2D-cGe9_AhjVK9zykGEcpbHhzZM1a3WF7i1haaHLlhZx-jG0p7p7qKZX9_HPCoZ8g894bxckLECLptqQ5mNXo"
	VapidPriv = "q50N01tF3dWr_pS6XcgkM5UmLHgnsmcG6MYNtxDwZ2o"
)
