package main

import (
	"math/big"
	"sync"
)

type mutexT = sync.Mutex

type bigInt = *big.Int
