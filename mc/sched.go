package main

// A controlled scheduler: tasks run one at a time on goroutines of their own; the library calls point() at the start
// of every function and before every statement, and the controller decides there who goes on. A schedule is a sequence
// of segments: which task, and for how many points.

import (
	"sync"
	"time"
)

type task struct {
	body   func() string
	run    chan struct{}
	budget int // points until it hands over; negative: none
	points int
	done   bool
	stuck  bool
	text   string
	panicv interface{}
}

type sched struct {
	tasks []*task
	ctl   chan struct{}
	wg    sync.WaitGroup
	level int // 0: points are function starts, 1: statements too
	free  bool
	dead  bool
}

var cur *task
var theSched *sched
var hooked bool

//go:norace
func point(kind int) {
	t := cur
	if t == nil {
		return
	}
	if kind == 0 && theSched.level == 1 || kind > theSched.level {
		return // at the level of statements the first statement stands for the start of its function
	}
	t.points++
	if t.budget == 0 {
		handOver(t)
		return
	}
	t.budget--
}

// blocked is called by a task that can not have a lock.
//
//go:norace
func blocked() {
	t := cur
	if t == nil {
		time.Sleep(time.Microsecond)
		return
	}
	t.stuck = true
	handOver(t)
}

//go:norace
func handOver(t *task) {
	raceHide()
	theSched.ctl <- struct{}{}
	<-t.run
	raceShow()
}

//go:norace
func (s *sched) start(t *task) {
	raceHide()
	<-t.run
	raceShow()
	defer func() {
		if r := recover(); r != nil {
			t.panicv = r
		}
		finish(s, t)
	}()
	t.text = t.body()
}

//go:norace
func finish(s *sched, t *task) {
	t.done = true
	s.wg.Done() // orders the task before whoever looks at its result, and before nothing else
	raceHide()
	s.ctl <- struct{}{}
	raceShow()
}

// grant lets a task run for n points (negative: to its end).
//
//go:norace
func (s *sched) grant(t *task, n int) {
	if s.free || t.done {
		return
	}
	raceHide()
	t.budget, t.stuck = n, false
	cur = t
	t.run <- struct{}{}
	select {
	case <-s.ctl:
	default:
		tm := time.NewTimer(3 * time.Second)
		select {
		case <-s.ctl:
		case <-tm.C:
			// it waits for another task by means the scheduler does not see: let all go on by themselves
			s.free = true
		}
		tm.Stop()
	}
	cur = nil
	raceShow()
}

// advance lets a task run for n points or to its end; where it waits for a lock the others go on.
//
//go:norace
func (s *sched) advance(i, n int) {
	t := s.tasks[i]
	from := t.points
	for rounds := 0; !t.done && !s.free; rounds++ {
		left := -1
		if n >= 0 {
			left = n - (t.points - from)
			if left < 0 {
				return
			}
		}
		s.grant(t, left)
		if !t.stuck || t.done {
			if n >= 0 {
				return
			}
			continue
		}
		moved := false
		for _, o := range s.tasks {
			if o != t && !o.done {
				s.grant(o, 0)
				moved = moved || !o.stuck
			}
		}
		if !moved || rounds > 1<<20 {
			s.dead = true
			return
		}
	}
}

// a segment of a schedule
type seg struct{ task, n int }

// play runs the tasks by the schedule; all of them end.
//
//go:norace
func (s *sched) play(segs []seg) {
	if !hooked {
		installHooks()
		hooked = true
	}
	s.ctl = make(chan struct{})
	theSched = s
	for _, t := range s.tasks {
		t.run = make(chan struct{})
		s.wg.Add(1)
		go s.start(t)
	}
	for _, x := range segs {
		s.advance(x.task, x.n)
	}
	for i := range s.tasks {
		s.advance(i, -1)
	}
	if s.free {
		s.letGo()
	}
	cur = nil
	if !s.dead {
		s.wg.Wait()
	}
}

//go:norace
func (s *sched) letGo() {
	raceHide()
	defer raceShow()
	cur = nil
	limit := time.After(30 * time.Second)
	for _, t := range s.tasks {
		go func(t *task) {
			select {
			case t.run <- struct{}{}:
			case <-time.After(40 * time.Second):
			}
		}(t)
	}
	for {
		all := true
		for _, t := range s.tasks {
			all = all && t.done
		}
		if all {
			return
		}
		select {
		case <-s.ctl:
		case <-limit:
			s.dead = true
			return
		}
	}
}
