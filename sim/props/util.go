package props

import (
	"time"

	"github.com/iden3/go-iden3-core/merkletree"
)

func simDur(ns int64) time.Duration { return time.Duration(ns) }

var merkleHashZero merkletree.Hash
