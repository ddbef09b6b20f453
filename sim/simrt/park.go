//go:build !race

package simrt

type parker struct{ c chan struct{} }

func (p *parker) init() { p.c = make(chan struct{}, 1) }
func (p *parker) wait() { <-p.c }
func (p *parker) wake() { p.c <- struct{}{} }
