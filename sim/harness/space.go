package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/metafates/bento"
)

// Where a split puts the space of an area (P34).

// Constraints give way in this order, the last first.
const (
	bounds  = iota // minimums
	lengths        // fixed lengths
	shares         // percentages
	ratios
	limits // what a maximum takes if it can; what a minimum takes at least
	filler // fills, and minimums that grow
)

// spaceGiven checks the sizes and places of the segments of a split of an area
// of the given size, which begins at lo.
func (rc *runCtx) spaceGiven(sp *LaySpec, area bento.Rect, lo, size int, res splitResult, along func(bento.Rect) (int, int)) {
	n := len(sp.Cons)
	bad := func(code, f string, a ...any) {
		rc.bad("P34", code, "splitting %v with %s: %s; result %v", area, layName(sp.build()), fmt.Sprintf(f, a...), res)
	}
	spacing := sp.Spacing
	if sp.NoSpacing {
		spacing = 0
	} else if sp.Overlap {
		spacing = -spacing
	}
	flex := bento.Flex(sp.Flex)
	starts, sizes := make([]int, n), make([]int, n)
	for i, r := range res.segs {
		a, b := along(r)
		starts[i], sizes[i] = a-lo, b-a
	}
	// spacers are what is between the segments
	if res.spacers != nil {
		at := 0
		for i, r := range res.spacers {
			a, b := along(r)
			end := size
			if i < n {
				end = starts[i]
			}
			if sp.overlaps() {
				end = max(end, at) // nothing
			}
			if a-lo != at || b-lo != end {
				bad("spacer", "spacer %d reaches from %d to %d, not from %d to %d", i, a-lo, b-lo, at, end)
				return
			}
			if i < n {
				at = starts[i] + sizes[i]
			}
		}
	}
	if n == 0 || n > 14 {
		return
	}
	gaps := n - 1
	if flex == bento.FlexSpaceAround {
		gaps = n + 1
	}
	rest := float64(size - gaps*spacing)
	if rest < 0 {
		return
	}
	rc.probe("space_checked")
	want := make([]float64, n)
	class := make([]int, n)
	var need [filler + 1]float64
	fills, weight := 0, 0.0
	unfair := false
	for i, c := range sp.Cons {
		switch c.Kind {
		case "len":
			class[i], want[i] = lengths, float64(c.N)
		case "pct":
			class[i], want[i] = shares, float64(size)*float64(c.N)/100
		case "ratio":
			class[i], want[i] = ratios, float64(size)*float64(c.N)/float64(max(1, c.M))
		case "max":
			class[i], want[i] = limits, float64(c.N)
		case "min":
			class[i], want[i] = limits, float64(c.N)
			need[bounds] += want[i]
			if flex != bento.FlexLegacy {
				class[i] = filler
				fills++
				weight++
			}
			continue
		case "fill":
			class[i], want[i] = filler, 0
			fills++
			weight += float64(c.N)
		}
		need[class[i]] += want[i]
	}
	// the classes that get all they want
	met := -1
	for k := range need {
		if need[k] > rest+1e-9 {
			break
		}
		rest -= need[k]
		met = k
	}
	full := met < filler || fills > 0 || flex == bento.FlexLegacy || flex == bento.FlexSpaceBetween && n < 2
	exact := func(k int) bool { return k <= met }
	if met < filler {
		// the rest goes to the first class that does not fit
	} else if fills > 0 {
		// the rest is shared by the fills
		for i, c := range sp.Cons {
			if class[i] == filler && c.Kind == "min" && weight > 0 && (rest+need[bounds])/weight < want[i] {
				unfair = true
			}
		}
		share := rest
		if flex != bento.FlexLegacy {
			share += need[bounds]
		}
		if weight == 0 {
			unfair = true
		}
		for i, c := range sp.Cons {
			if class[i] == filler && !unfair {
				w := 1.0
				if c.Kind == "fill" {
					w = float64(c.N)
				}
				want[i] = share * w / weight
			}
		}
		if unfair { // a minimum takes more than its share
			exact = func(k int) bool { return k <= ratios }
		}
	} else if full && rest > 0 {
		// the weakest class grows
		weakest := -1
		for i, c := range sp.Cons {
			k := class[i]
			if c.Kind == "max" {
				k = bounds
			}
			weakest = max(weakest, k)
		}
		exact = func(k int) bool { return k < weakest }
		if weakest == bounds {
			return // nothing may grow
		}
	}
	if sp.overlaps() {
		// nothing can be larger than the area, or begin before it
		if full && slices.Max(want)+max(0, rest) > float64(size) || slices.Max(want) > float64(size) || int(slices.Min(want)) < -spacing || flex == bento.FlexSpaceAround || met < filler {
			return
		}
		rc.probe("overlap_checked")
	}
	// sizes
	all := true
	for i := range sp.Cons {
		grows := full && rest > 0 && fills == 0 && met == filler && sp.Cons[i].Kind == "max"
		if !exact(class[i]) && !grows {
			all = false
			continue
		}
		if math.Abs(float64(sizes[i])-want[i]) > 1.03 {
			bad("size", "segment %d is %d long, not %.2f", i, sizes[i], want[i])
			return
		}
	}
	for i, c := range sp.Cons {
		if met < filler && class[i] > met+1 && sizes[i] > 1 && c.Kind != "min" {
			bad("greedy", "segment %d is %d long, although others that come before it lack space", i, sizes[i])
			return
		}
	}
	// places
	gap, at := float64(spacing), 0.0
	if flex == bento.FlexSpaceAround {
		at = gap
	}
	if !full {
		switch flex {
		case bento.FlexEnd:
			at = rest
		case bento.FlexCenter:
			at = rest / 2
		case bento.FlexSpaceBetween:
			gap += rest / float64(n-1)
		case bento.FlexSpaceAround:
			gap += rest / float64(n+1)
			at = gap
		}
	}
	if all && !slices.Contains(want, math.Inf(1)) {
		for i := range sp.Cons {
			if math.Abs(float64(starts[i])-at) > 0.52 {
				bad("place", "segment %d begins at %d, not %.2f", i, starts[i], at)
				return
			}
			at += want[i] + gap
		}
		return
	}
	if !full {
		return
	}
	// sizes are not determined, but all the space is used
	if math.Abs(float64(starts[0])-at) > 0.52 || math.Abs(float64(starts[n-1]+sizes[n-1])+at-float64(size)) > 0.52 {
		bad("unused", "the segments reach from %d to %d", starts[0], starts[n-1]+sizes[n-1])
		return
	}
	for i := 1; i < n; i++ {
		if g := starts[i] - starts[i-1] - sizes[i-1]; math.Abs(float64(g)-gap) > 1.03 {
			bad("gap", "there are %d between segments %d and %d, not %v", g, i-1, i, gap)
			return
		}
	}
}
