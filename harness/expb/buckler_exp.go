// Package zzexp re-exports internal field packages for the harness.
package zzexp

import (
	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
)

type (
	Uint110 = zp110.Uint
	Uint220 = zp220.Uint
	Uint440 = zp440.Uint
	Uint880 = zp880.Uint
)
