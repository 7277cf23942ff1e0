package hook

import "time"

func nap() { time.Sleep(20 * time.Microsecond) }
