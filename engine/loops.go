package main

import "golang.org/x/tools/go/ssa"

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	index  int
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	pos   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loopInfo // by header
	inner map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	irred bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{pos: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	onstack := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	type edge struct{ from, to *ssa.BasicBlock }
	var back []edge
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onstack[b] = true
		for _, s := range b.Succs {
			if onstack[s] {
				back = append(back, edge{b, s})
				if !s.Dominates(b) {
					fi.irred = true
				}
			} else if !seen[s] {
				dfs(s)
			}
		}
		onstack[b] = false
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.pos[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, e := range back {
		l := fi.loops[e.to]
		if l == nil {
			l = &loopInfo{header: e.to, blocks: map[*ssa.BasicBlock]bool{e.to: true}}
			fi.loops[e.to] = l
		}
		stack := []*ssa.BasicBlock{e.from}
		for len(stack) > 0 {
			b := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if l.blocks[b] {
				continue
			}
			l.blocks[b] = true
			for _, p := range b.Preds {
				if seen[p] {
					stack = append(stack, p)
				}
			}
		}
	}
	n := 0
	for _, b := range fi.rpo {
		if l := fi.loops[b]; l != nil {
			l.index = n
			n++
		}
	}
	for _, b := range fi.rpo {
		var best *loopInfo
		for _, l := range fi.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		fi.inner[b] = best
	}
	for _, l := range fi.loops {
		for _, o := range fi.loops {
			if o != l && o.blocks[l.header] && (l.parent == nil || len(o.blocks) < len(l.parent.blocks)) {
				l.parent = o
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}
