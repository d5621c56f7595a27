package simnet

import "time"

type durT = time.Duration
