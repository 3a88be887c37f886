package main

import (
	"math"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// conf is a tokenizer and what it was made from.
type conf struct {
	name string
	m    model
	t    *tokenizer.Tokenizer // with markers
	o    *tokenizer.Tokenizer // without
}

func newConf(name string, d *dict.Dict, s *synth, u *userDict) *conf {
	c := &conf{name: name, m: model{d: d, s: s, u: u}}
	var opts []tokenizer.Option
	if u != nil {
		opts = append(opts, tokenizer.UserDict(u.U))
	}
	var err error
	if c.t, err = tokenizer.New(d, opts...); err != nil {
		setupError("tokenizer: %v", err)
	}
	if c.o, err = tokenizer.New(d, append(opts, tokenizer.OmitBosEos())...); err != nil {
		setupError("tokenizer: %v", err)
	}
	return c
}

var modes = []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended}
var oddModes = []tokenizer.TokenizeMode{0, -1, 4, 99, math.MaxInt - 1<<20}
