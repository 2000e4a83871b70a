// Package zzexp re-exports an internal field package for the harness.
package zzexp

import "github.com/sp301415/ringo-snark/jindo/internal/zp"

type Uint255 = zp.Uint
