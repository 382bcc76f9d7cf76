package adapt

import (
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"
)

type Sleeper struct{ s *sleepx.Sleeper }

func NewSleeper() Sleeper                     { return Sleeper{sleepx.New()} }
func (s Sleeper) SleepFor(n int64) bool       { return s.s.SleepFor(time.Duration(n)) }
func (s Sleeper) SleepUntil(t time.Time) bool { return s.s.SleepUntil(t) }
func (s Sleeper) SleepForever() bool          { return s.s.SleepForever() }
func (s Sleeper) Wakeup() bool                { return s.s.Wakeup() }
