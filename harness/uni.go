package main

import (
	"sync"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/uni"
)

var (
	uniOnce sync.Once
	uniD    *dict.Dict
)

func uniDict() *dict.Dict { uniOnce.Do(func() { uniD = uni.Dict() }); return uniD }
