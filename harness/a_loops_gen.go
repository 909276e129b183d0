// Code generated by harness genloops; DO NOT EDIT.

package main

import "reflect"

type l1a0 []l1b0
type l1b0 []l1b0
type l1a1 []l1b1
type l1b1 []l1a1
type l1a3 []l1b3
type l1b3 *l1b3
type l1a4 []l1b4
type l1b4 *l1a4
type l1a6 []l1b6
type l1b6 map[string]l1b6
type l1a7 []l1b7
type l1b7 map[string]l1a7
type l1a9 []l1b9
type l1b9 func(l1b9)
type l1a10 []l1b10
type l1b10 func(l1a10)
type l1a12 []l1b12
type l1b12 func(...l1b12)
type l1a13 []l1b13
type l1b13 func(...l1a13)
type l1a15 []l1b15
type l1b15 func() l1b15
type l1a16 []l1b16
type l1b16 func() l1a16
type l1a19 []l1b19
type l1b19 struct{ A l1a19 }
type l1a22 []l1b22
type l1b22 [2]l1a22
type l1a28 []l1b28
type l1b28 struct {
	A l1a28
	B l1a28
}
type l1a34 []l1b34
type l1b34 func(l1b34) l1a34
type l1a38 []l1b38
type l1b38 func(l1a38) uint8
type l1a45 []l1b45
type l1b45 func(l1a45, l1b45)
type l1a49 []l1b49
type l1b49 func(uint8, l1a49)
type l4a0 *l4b0
type l4b0 []l4b0
type l4a1 *l4b1
type l4b1 []l4a1
type l4a3 *l4b3
type l4b3 *l4b3
type l4a4 *l4b4
type l4b4 *l4a4
type l4a6 *l4b6
type l4b6 map[string]l4b6
type l4a7 *l4b7
type l4b7 map[string]l4a7
type l4a9 *l4b9
type l4b9 func(l4b9)
type l4a10 *l4b10
type l4b10 func(l4a10)
type l4a12 *l4b12
type l4b12 func(...l4b12)
type l4a13 *l4b13
type l4b13 func(...l4a13)
type l4a15 *l4b15
type l4b15 func() l4b15
type l4a16 *l4b16
type l4b16 func() l4a16
type l4a19 *l4b19
type l4b19 struct{ A l4a19 }
type l4a22 *l4b22
type l4b22 [2]l4a22
type l4a28 *l4b28
type l4b28 struct {
	A l4a28
	B l4a28
}
type l4a34 *l4b34
type l4b34 func(l4b34) l4a34
type l4a38 *l4b38
type l4b38 func(l4a38) uint8
type l4a45 *l4b45
type l4b45 func(l4a45, l4b45)
type l4a49 *l4b49
type l4b49 func(uint8, l4a49)
type l7a0 map[string]l7b0
type l7b0 []l7b0
type l7a1 map[string]l7b1
type l7b1 []l7a1
type l7a3 map[string]l7b3
type l7b3 *l7b3
type l7a4 map[string]l7b4
type l7b4 *l7a4
type l7a6 map[string]l7b6
type l7b6 map[string]l7b6
type l7a7 map[string]l7b7
type l7b7 map[string]l7a7
type l7a9 map[string]l7b9
type l7b9 func(l7b9)
type l7a10 map[string]l7b10
type l7b10 func(l7a10)
type l7a12 map[string]l7b12
type l7b12 func(...l7b12)
type l7a13 map[string]l7b13
type l7b13 func(...l7a13)
type l7a15 map[string]l7b15
type l7b15 func() l7b15
type l7a16 map[string]l7b16
type l7b16 func() l7a16
type l7a19 map[string]l7b19
type l7b19 struct{ A l7a19 }
type l7a22 map[string]l7b22
type l7b22 [2]l7a22
type l7a28 map[string]l7b28
type l7b28 struct {
	A l7a28
	B l7a28
}
type l7a34 map[string]l7b34
type l7b34 func(l7b34) l7a34
type l7a38 map[string]l7b38
type l7b38 func(l7a38) uint8
type l7a45 map[string]l7b45
type l7b45 func(l7a45, l7b45)
type l7a49 map[string]l7b49
type l7b49 func(uint8, l7a49)
type l10a0 func(l10b0)
type l10b0 []l10b0
type l10a1 func(l10b1)
type l10b1 []l10a1
type l10a3 func(l10b3)
type l10b3 *l10b3
type l10a4 func(l10b4)
type l10b4 *l10a4
type l10a6 func(l10b6)
type l10b6 map[string]l10b6
type l10a7 func(l10b7)
type l10b7 map[string]l10a7
type l10a9 func(l10b9)
type l10b9 func(l10b9)
type l10a10 func(l10b10)
type l10b10 func(l10a10)
type l10a12 func(l10b12)
type l10b12 func(...l10b12)
type l10a13 func(l10b13)
type l10b13 func(...l10a13)
type l10a15 func(l10b15)
type l10b15 func() l10b15
type l10a16 func(l10b16)
type l10b16 func() l10a16
type l10a19 func(l10b19)
type l10b19 struct{ A l10a19 }
type l10a22 func(l10b22)
type l10b22 [2]l10a22
type l10a28 func(l10b28)
type l10b28 struct {
	A l10a28
	B l10a28
}
type l10a34 func(l10b34)
type l10b34 func(l10b34) l10a34
type l10a38 func(l10b38)
type l10b38 func(l10a38) uint8
type l10a45 func(l10b45)
type l10b45 func(l10a45, l10b45)
type l10a49 func(l10b49)
type l10b49 func(uint8, l10a49)
type l13a0 func(...l13b0)
type l13b0 []l13b0
type l13a1 func(...l13b1)
type l13b1 []l13a1
type l13a3 func(...l13b3)
type l13b3 *l13b3
type l13a4 func(...l13b4)
type l13b4 *l13a4
type l13a6 func(...l13b6)
type l13b6 map[string]l13b6
type l13a7 func(...l13b7)
type l13b7 map[string]l13a7
type l13a9 func(...l13b9)
type l13b9 func(l13b9)
type l13a10 func(...l13b10)
type l13b10 func(l13a10)
type l13a12 func(...l13b12)
type l13b12 func(...l13b12)
type l13a13 func(...l13b13)
type l13b13 func(...l13a13)
type l13a15 func(...l13b15)
type l13b15 func() l13b15
type l13a16 func(...l13b16)
type l13b16 func() l13a16
type l13a19 func(...l13b19)
type l13b19 struct{ A l13a19 }
type l13a22 func(...l13b22)
type l13b22 [2]l13a22
type l13a28 func(...l13b28)
type l13b28 struct {
	A l13a28
	B l13a28
}
type l13a34 func(...l13b34)
type l13b34 func(l13b34) l13a34
type l13a38 func(...l13b38)
type l13b38 func(l13a38) uint8
type l13a45 func(...l13b45)
type l13b45 func(l13a45, l13b45)
type l13a49 func(...l13b49)
type l13b49 func(uint8, l13a49)
type l16a0 func() l16b0
type l16b0 []l16b0
type l16a1 func() l16b1
type l16b1 []l16a1
type l16a3 func() l16b3
type l16b3 *l16b3
type l16a4 func() l16b4
type l16b4 *l16a4
type l16a6 func() l16b6
type l16b6 map[string]l16b6
type l16a7 func() l16b7
type l16b7 map[string]l16a7
type l16a9 func() l16b9
type l16b9 func(l16b9)
type l16a10 func() l16b10
type l16b10 func(l16a10)
type l16a12 func() l16b12
type l16b12 func(...l16b12)
type l16a13 func() l16b13
type l16b13 func(...l16a13)
type l16a15 func() l16b15
type l16b15 func() l16b15
type l16a16 func() l16b16
type l16b16 func() l16a16
type l16a19 func() l16b19
type l16b19 struct{ A l16a19 }
type l16a22 func() l16b22
type l16b22 [2]l16a22
type l16a28 func() l16b28
type l16b28 struct {
	A l16a28
	B l16a28
}
type l16a34 func() l16b34
type l16b34 func(l16b34) l16a34
type l16a38 func() l16b38
type l16b38 func(l16a38) uint8
type l16a45 func() l16b45
type l16b45 func(l16a45, l16b45)
type l16a49 func() l16b49
type l16b49 func(uint8, l16a49)
type l19a0 struct{ A l19b0 }
type l19b0 []l19b0
type l19a1 struct{ A l19b1 }
type l19b1 []l19a1
type l19a3 struct{ A l19b3 }
type l19b3 *l19b3
type l19a4 struct{ A l19b4 }
type l19b4 *l19a4
type l19a6 struct{ A l19b6 }
type l19b6 map[string]l19b6
type l19a7 struct{ A l19b7 }
type l19b7 map[string]l19a7
type l19a9 struct{ A l19b9 }
type l19b9 func(l19b9)
type l19a10 struct{ A l19b10 }
type l19b10 func(l19a10)
type l19a12 struct{ A l19b12 }
type l19b12 func(...l19b12)
type l19a13 struct{ A l19b13 }
type l19b13 func(...l19a13)
type l19a15 struct{ A l19b15 }
type l19b15 func() l19b15
type l19a16 struct{ A l19b16 }
type l19b16 func() l19a16
type l19a37 struct{ A l19b37 }
type l19b37 func(l19a37) l19a37
type l19a43 struct{ A l19b43 }
type l19b43 func(l19b43, l19a43)
type l19a47 struct{ A l19b47 }
type l19b47 func(l19a47, uint8)
type l22a0 [2]l22b0
type l22b0 []l22b0
type l22a1 [2]l22b1
type l22b1 []l22a1
type l22a3 [2]l22b3
type l22b3 *l22b3
type l22a4 [2]l22b4
type l22b4 *l22a4
type l22a6 [2]l22b6
type l22b6 map[string]l22b6
type l22a7 [2]l22b7
type l22b7 map[string]l22a7
type l22a9 [2]l22b9
type l22b9 func(l22b9)
type l22a10 [2]l22b10
type l22b10 func(l22a10)
type l22a12 [2]l22b12
type l22b12 func(...l22b12)
type l22a13 [2]l22b13
type l22b13 func(...l22a13)
type l22a15 [2]l22b15
type l22b15 func() l22b15
type l22a16 [2]l22b16
type l22b16 func() l22a16
type l22a36 [2]l22b36
type l22b36 func(l22a36) l22b36
type l22a40 [2]l22b40
type l22b40 func(uint8) l22a40
type l22a46 [2]l22b46
type l22b46 func(l22a46, l22a46)
type l28a0 struct {
	A l28b0
	B l28b0
}
type l28b0 []l28b0
type l28a4 struct {
	A l28b4
	B l28b4
}
type l28b4 *l28a4
type l28a9 struct {
	A l28b9
	B l28b9
}
type l28b9 func(l28b9)
type l28a13 struct {
	A l28b13
	B l28b13
}
type l28b13 func(...l28a13)
type l28a34 struct {
	A l28b34
	B l28b34
}
type l28b34 func(l28b34) l28a34
type l28a38 struct {
	A l28b38
	B l28b38
}
type l28b38 func(l28a38) uint8
type l28a45 struct {
	A l28b45
	B l28b45
}
type l28b45 func(l28a45, l28b45)
type l28a49 struct {
	A l28b49
	B l28b49
}
type l28b49 func(uint8, l28a49)
type l29a3 struct {
	A l29b3
	B uint8
}
type l29b3 *l29b3
type l29a7 struct {
	A l29b7
	B uint8
}
type l29b7 map[string]l29a7
type l29a12 struct {
	A l29b12
	B uint8
}
type l29b12 func(...l29b12)
type l29a16 struct {
	A l29b16
	B uint8
}
type l29b16 func() l29a16
type l29a37 struct {
	A l29b37
	B uint8
}
type l29b37 func(l29a37) l29a37
type l29a43 struct {
	A l29b43
	B uint8
}
type l29b43 func(l29b43, l29a43)
type l29a47 struct {
	A l29b47
	B uint8
}
type l29b47 func(l29a47, uint8)
type l31a1 struct {
	A uint8
	B l31b1
}
type l31b1 []l31a1
type l31a6 struct {
	A uint8
	B l31b6
}
type l31b6 map[string]l31b6
type l31a10 struct {
	A uint8
	B l31b10
}
type l31b10 func(l31a10)
type l31a15 struct {
	A uint8
	B l31b15
}
type l31b15 func() l31b15
type l31a36 struct {
	A uint8
	B l31b36
}
type l31b36 func(l31a36) l31b36
type l31a40 struct {
	A uint8
	B l31b40
}
type l31b40 func(uint8) l31a40
type l31a46 struct {
	A uint8
	B l31b46
}
type l31b46 func(l31a46, l31a46)
type l34a0 func(l34a0) l34b0
type l34b0 []l34b0
type l34a4 func(l34a4) l34b4
type l34b4 *l34a4
type l34a9 func(l34a9) l34b9
type l34b9 func(l34b9)
type l34a13 func(l34a13) l34b13
type l34b13 func(...l34a13)
type l34a19 func(l34a19) l34b19
type l34b19 struct{ A l34a19 }
type l34a29 func(l34a29) l34b29
type l34b29 struct {
	A l34a29
	B uint8
}
type l34a36 func(l34a36) l34b36
type l34b36 func(l34a36) l34b36
type l34a40 func(l34a40) l34b40
type l34b40 func(uint8) l34a40
type l34a46 func(l34a46) l34b46
type l34b46 func(l34a46, l34a46)
type l36a0 func(l36b0) l36a0
type l36b0 []l36b0
type l36a4 func(l36b4) l36a4
type l36b4 *l36a4
type l36a9 func(l36b9) l36a9
type l36b9 func(l36b9)
type l36a13 func(l36b13) l36a13
type l36b13 func(...l36a13)
type l36a19 func(l36b19) l36a19
type l36b19 struct{ A l36a19 }
type l36a29 func(l36b29) l36a29
type l36b29 struct {
	A l36a29
	B uint8
}
type l36a36 func(l36b36) l36a36
type l36b36 func(l36a36) l36b36
type l36a40 func(l36b40) l36a40
type l36b40 func(uint8) l36a40
type l36a46 func(l36b46) l36a46
type l36b46 func(l36a46, l36a46)
type l37a0 func(l37b0) l37b0
type l37b0 []l37b0
type l37a4 func(l37b4) l37b4
type l37b4 *l37a4
type l37a9 func(l37b9) l37b9
type l37b9 func(l37b9)
type l37a13 func(l37b13) l37b13
type l37b13 func(...l37a13)
type l37a19 func(l37b19) l37b19
type l37b19 struct{ A l37a19 }
type l37a29 func(l37b29) l37b29
type l37b29 struct {
	A l37a29
	B uint8
}
type l37a36 func(l37b36) l37b36
type l37b36 func(l37a36) l37b36
type l37a40 func(l37b40) l37b40
type l37b40 func(uint8) l37a40
type l37a46 func(l37b46) l37b46
type l37b46 func(l37a46, l37a46)
type l38a0 func(l38b0) uint8
type l38b0 []l38b0
type l38a4 func(l38b4) uint8
type l38b4 *l38a4
type l38a9 func(l38b9) uint8
type l38b9 func(l38b9)
type l38a13 func(l38b13) uint8
type l38b13 func(...l38a13)
type l38a19 func(l38b19) uint8
type l38b19 struct{ A l38a19 }
type l38a29 func(l38b29) uint8
type l38b29 struct {
	A l38a29
	B uint8
}
type l38a36 func(l38b36) uint8
type l38b36 func(l38a36) l38b36
type l38a40 func(l38b40) uint8
type l38b40 func(uint8) l38a40
type l38a46 func(l38b46) uint8
type l38b46 func(l38a46, l38a46)
type l40a0 func(uint8) l40b0
type l40b0 []l40b0
type l40a4 func(uint8) l40b4
type l40b4 *l40a4
type l40a9 func(uint8) l40b9
type l40b9 func(l40b9)
type l40a13 func(uint8) l40b13
type l40b13 func(...l40a13)
type l40a19 func(uint8) l40b19
type l40b19 struct{ A l40a19 }
type l40a29 func(uint8) l40b29
type l40b29 struct {
	A l40a29
	B uint8
}
type l40a36 func(uint8) l40b36
type l40b36 func(l40a36) l40b36
type l40a40 func(uint8) l40b40
type l40b40 func(uint8) l40a40
type l40a46 func(uint8) l40b46
type l40b46 func(l40a46, l40a46)
type l43a0 func(l43a0, l43b0)
type l43b0 []l43b0
type l43a4 func(l43a4, l43b4)
type l43b4 *l43a4
type l43a9 func(l43a9, l43b9)
type l43b9 func(l43b9)
type l43a13 func(l43a13, l43b13)
type l43b13 func(...l43a13)
type l43a19 func(l43a19, l43b19)
type l43b19 struct{ A l43a19 }
type l43a29 func(l43a29, l43b29)
type l43b29 struct {
	A l43a29
	B uint8
}
type l43a36 func(l43a36, l43b36)
type l43b36 func(l43a36) l43b36
type l43a40 func(l43a40, l43b40)
type l43b40 func(uint8) l43a40
type l43a46 func(l43a46, l43b46)
type l43b46 func(l43a46, l43a46)
type l45a0 func(l45b0, l45a0)
type l45b0 []l45b0
type l45a4 func(l45b4, l45a4)
type l45b4 *l45a4
type l45a9 func(l45b9, l45a9)
type l45b9 func(l45b9)
type l45a13 func(l45b13, l45a13)
type l45b13 func(...l45a13)
type l45a19 func(l45b19, l45a19)
type l45b19 struct{ A l45a19 }
type l45a29 func(l45b29, l45a29)
type l45b29 struct {
	A l45a29
	B uint8
}
type l45a36 func(l45b36, l45a36)
type l45b36 func(l45a36) l45b36
type l45a40 func(l45b40, l45a40)
type l45b40 func(uint8) l45a40
type l45a46 func(l45b46, l45a46)
type l45b46 func(l45a46, l45a46)
type l46a0 func(l46b0, l46b0)
type l46b0 []l46b0
type l46a4 func(l46b4, l46b4)
type l46b4 *l46a4
type l46a9 func(l46b9, l46b9)
type l46b9 func(l46b9)
type l46a13 func(l46b13, l46b13)
type l46b13 func(...l46a13)
type l46a19 func(l46b19, l46b19)
type l46b19 struct{ A l46a19 }
type l46a29 func(l46b29, l46b29)
type l46b29 struct {
	A l46a29
	B uint8
}
type l46a36 func(l46b36, l46b36)
type l46b36 func(l46a36) l46b36
type l46a40 func(l46b40, l46b40)
type l46b40 func(uint8) l46a40
type l46a46 func(l46b46, l46b46)
type l46b46 func(l46a46, l46a46)
type l47a0 func(l47b0, uint8)
type l47b0 []l47b0
type l47a4 func(l47b4, uint8)
type l47b4 *l47a4
type l47a9 func(l47b9, uint8)
type l47b9 func(l47b9)
type l47a13 func(l47b13, uint8)
type l47b13 func(...l47a13)
type l47a19 func(l47b19, uint8)
type l47b19 struct{ A l47a19 }
type l47a29 func(l47b29, uint8)
type l47b29 struct {
	A l47a29
	B uint8
}
type l47a36 func(l47b36, uint8)
type l47b36 func(l47a36) l47b36
type l47a40 func(l47b40, uint8)
type l47b40 func(uint8) l47a40
type l47a46 func(l47b46, uint8)
type l47b46 func(l47a46, l47a46)
type l49a0 func(uint8, l49b0)
type l49b0 []l49b0
type l49a4 func(uint8, l49b4)
type l49b4 *l49a4
type l49a9 func(uint8, l49b9)
type l49b9 func(l49b9)
type l49a13 func(uint8, l49b13)
type l49b13 func(...l49a13)
type l49a19 func(uint8, l49b19)
type l49b19 struct{ A l49a19 }
type l49a29 func(uint8, l49b29)
type l49b29 struct {
	A l49a29
	B uint8
}
type l49a36 func(uint8, l49b36)
type l49b36 func(l49a36) l49b36
type l49a40 func(uint8, l49b40)
type l49b40 func(uint8) l49a40
type l49a46 func(uint8, l49b46)
type l49b46 func(l49a46, l49a46)

var loops = []reflect.Type{
	reflect.TypeOf((*l1a0)(nil)).Elem(),
	reflect.TypeOf((*l1b0)(nil)).Elem(),
	reflect.TypeOf((*l1a1)(nil)).Elem(),
	reflect.TypeOf((*l1b1)(nil)).Elem(),
	reflect.TypeOf((*l1a3)(nil)).Elem(),
	reflect.TypeOf((*l1b3)(nil)).Elem(),
	reflect.TypeOf((*l1a4)(nil)).Elem(),
	reflect.TypeOf((*l1b4)(nil)).Elem(),
	reflect.TypeOf((*l1a6)(nil)).Elem(),
	reflect.TypeOf((*l1b6)(nil)).Elem(),
	reflect.TypeOf((*l1a7)(nil)).Elem(),
	reflect.TypeOf((*l1b7)(nil)).Elem(),
	reflect.TypeOf((*l1a9)(nil)).Elem(),
	reflect.TypeOf((*l1b9)(nil)).Elem(),
	reflect.TypeOf((*l1a10)(nil)).Elem(),
	reflect.TypeOf((*l1b10)(nil)).Elem(),
	reflect.TypeOf((*l1a12)(nil)).Elem(),
	reflect.TypeOf((*l1b12)(nil)).Elem(),
	reflect.TypeOf((*l1a13)(nil)).Elem(),
	reflect.TypeOf((*l1b13)(nil)).Elem(),
	reflect.TypeOf((*l1a15)(nil)).Elem(),
	reflect.TypeOf((*l1b15)(nil)).Elem(),
	reflect.TypeOf((*l1a16)(nil)).Elem(),
	reflect.TypeOf((*l1b16)(nil)).Elem(),
	reflect.TypeOf((*l1a19)(nil)).Elem(),
	reflect.TypeOf((*l1b19)(nil)).Elem(),
	reflect.TypeOf((*l1a22)(nil)).Elem(),
	reflect.TypeOf((*l1b22)(nil)).Elem(),
	reflect.TypeOf((*l1a28)(nil)).Elem(),
	reflect.TypeOf((*l1b28)(nil)).Elem(),
	reflect.TypeOf((*l1a34)(nil)).Elem(),
	reflect.TypeOf((*l1b34)(nil)).Elem(),
	reflect.TypeOf((*l1a38)(nil)).Elem(),
	reflect.TypeOf((*l1b38)(nil)).Elem(),
	reflect.TypeOf((*l1a45)(nil)).Elem(),
	reflect.TypeOf((*l1b45)(nil)).Elem(),
	reflect.TypeOf((*l1a49)(nil)).Elem(),
	reflect.TypeOf((*l1b49)(nil)).Elem(),
	reflect.TypeOf((*l4a0)(nil)).Elem(),
	reflect.TypeOf((*l4b0)(nil)).Elem(),
	reflect.TypeOf((*l4a1)(nil)).Elem(),
	reflect.TypeOf((*l4b1)(nil)).Elem(),
	reflect.TypeOf((*l4a3)(nil)).Elem(),
	reflect.TypeOf((*l4b3)(nil)).Elem(),
	reflect.TypeOf((*l4a4)(nil)).Elem(),
	reflect.TypeOf((*l4b4)(nil)).Elem(),
	reflect.TypeOf((*l4a6)(nil)).Elem(),
	reflect.TypeOf((*l4b6)(nil)).Elem(),
	reflect.TypeOf((*l4a7)(nil)).Elem(),
	reflect.TypeOf((*l4b7)(nil)).Elem(),
	reflect.TypeOf((*l4a9)(nil)).Elem(),
	reflect.TypeOf((*l4b9)(nil)).Elem(),
	reflect.TypeOf((*l4a10)(nil)).Elem(),
	reflect.TypeOf((*l4b10)(nil)).Elem(),
	reflect.TypeOf((*l4a12)(nil)).Elem(),
	reflect.TypeOf((*l4b12)(nil)).Elem(),
	reflect.TypeOf((*l4a13)(nil)).Elem(),
	reflect.TypeOf((*l4b13)(nil)).Elem(),
	reflect.TypeOf((*l4a15)(nil)).Elem(),
	reflect.TypeOf((*l4b15)(nil)).Elem(),
	reflect.TypeOf((*l4a16)(nil)).Elem(),
	reflect.TypeOf((*l4b16)(nil)).Elem(),
	reflect.TypeOf((*l4a19)(nil)).Elem(),
	reflect.TypeOf((*l4b19)(nil)).Elem(),
	reflect.TypeOf((*l4a22)(nil)).Elem(),
	reflect.TypeOf((*l4b22)(nil)).Elem(),
	reflect.TypeOf((*l4a28)(nil)).Elem(),
	reflect.TypeOf((*l4b28)(nil)).Elem(),
	reflect.TypeOf((*l4a34)(nil)).Elem(),
	reflect.TypeOf((*l4b34)(nil)).Elem(),
	reflect.TypeOf((*l4a38)(nil)).Elem(),
	reflect.TypeOf((*l4b38)(nil)).Elem(),
	reflect.TypeOf((*l4a45)(nil)).Elem(),
	reflect.TypeOf((*l4b45)(nil)).Elem(),
	reflect.TypeOf((*l4a49)(nil)).Elem(),
	reflect.TypeOf((*l4b49)(nil)).Elem(),
	reflect.TypeOf((*l7a0)(nil)).Elem(),
	reflect.TypeOf((*l7b0)(nil)).Elem(),
	reflect.TypeOf((*l7a1)(nil)).Elem(),
	reflect.TypeOf((*l7b1)(nil)).Elem(),
	reflect.TypeOf((*l7a3)(nil)).Elem(),
	reflect.TypeOf((*l7b3)(nil)).Elem(),
	reflect.TypeOf((*l7a4)(nil)).Elem(),
	reflect.TypeOf((*l7b4)(nil)).Elem(),
	reflect.TypeOf((*l7a6)(nil)).Elem(),
	reflect.TypeOf((*l7b6)(nil)).Elem(),
	reflect.TypeOf((*l7a7)(nil)).Elem(),
	reflect.TypeOf((*l7b7)(nil)).Elem(),
	reflect.TypeOf((*l7a9)(nil)).Elem(),
	reflect.TypeOf((*l7b9)(nil)).Elem(),
	reflect.TypeOf((*l7a10)(nil)).Elem(),
	reflect.TypeOf((*l7b10)(nil)).Elem(),
	reflect.TypeOf((*l7a12)(nil)).Elem(),
	reflect.TypeOf((*l7b12)(nil)).Elem(),
	reflect.TypeOf((*l7a13)(nil)).Elem(),
	reflect.TypeOf((*l7b13)(nil)).Elem(),
	reflect.TypeOf((*l7a15)(nil)).Elem(),
	reflect.TypeOf((*l7b15)(nil)).Elem(),
	reflect.TypeOf((*l7a16)(nil)).Elem(),
	reflect.TypeOf((*l7b16)(nil)).Elem(),
	reflect.TypeOf((*l7a19)(nil)).Elem(),
	reflect.TypeOf((*l7b19)(nil)).Elem(),
	reflect.TypeOf((*l7a22)(nil)).Elem(),
	reflect.TypeOf((*l7b22)(nil)).Elem(),
	reflect.TypeOf((*l7a28)(nil)).Elem(),
	reflect.TypeOf((*l7b28)(nil)).Elem(),
	reflect.TypeOf((*l7a34)(nil)).Elem(),
	reflect.TypeOf((*l7b34)(nil)).Elem(),
	reflect.TypeOf((*l7a38)(nil)).Elem(),
	reflect.TypeOf((*l7b38)(nil)).Elem(),
	reflect.TypeOf((*l7a45)(nil)).Elem(),
	reflect.TypeOf((*l7b45)(nil)).Elem(),
	reflect.TypeOf((*l7a49)(nil)).Elem(),
	reflect.TypeOf((*l7b49)(nil)).Elem(),
	reflect.TypeOf((*l10a0)(nil)).Elem(),
	reflect.TypeOf((*l10b0)(nil)).Elem(),
	reflect.TypeOf((*l10a1)(nil)).Elem(),
	reflect.TypeOf((*l10b1)(nil)).Elem(),
	reflect.TypeOf((*l10a3)(nil)).Elem(),
	reflect.TypeOf((*l10b3)(nil)).Elem(),
	reflect.TypeOf((*l10a4)(nil)).Elem(),
	reflect.TypeOf((*l10b4)(nil)).Elem(),
	reflect.TypeOf((*l10a6)(nil)).Elem(),
	reflect.TypeOf((*l10b6)(nil)).Elem(),
	reflect.TypeOf((*l10a7)(nil)).Elem(),
	reflect.TypeOf((*l10b7)(nil)).Elem(),
	reflect.TypeOf((*l10a9)(nil)).Elem(),
	reflect.TypeOf((*l10b9)(nil)).Elem(),
	reflect.TypeOf((*l10a10)(nil)).Elem(),
	reflect.TypeOf((*l10b10)(nil)).Elem(),
	reflect.TypeOf((*l10a12)(nil)).Elem(),
	reflect.TypeOf((*l10b12)(nil)).Elem(),
	reflect.TypeOf((*l10a13)(nil)).Elem(),
	reflect.TypeOf((*l10b13)(nil)).Elem(),
	reflect.TypeOf((*l10a15)(nil)).Elem(),
	reflect.TypeOf((*l10b15)(nil)).Elem(),
	reflect.TypeOf((*l10a16)(nil)).Elem(),
	reflect.TypeOf((*l10b16)(nil)).Elem(),
	reflect.TypeOf((*l10a19)(nil)).Elem(),
	reflect.TypeOf((*l10b19)(nil)).Elem(),
	reflect.TypeOf((*l10a22)(nil)).Elem(),
	reflect.TypeOf((*l10b22)(nil)).Elem(),
	reflect.TypeOf((*l10a28)(nil)).Elem(),
	reflect.TypeOf((*l10b28)(nil)).Elem(),
	reflect.TypeOf((*l10a34)(nil)).Elem(),
	reflect.TypeOf((*l10b34)(nil)).Elem(),
	reflect.TypeOf((*l10a38)(nil)).Elem(),
	reflect.TypeOf((*l10b38)(nil)).Elem(),
	reflect.TypeOf((*l10a45)(nil)).Elem(),
	reflect.TypeOf((*l10b45)(nil)).Elem(),
	reflect.TypeOf((*l10a49)(nil)).Elem(),
	reflect.TypeOf((*l10b49)(nil)).Elem(),
	reflect.TypeOf((*l13a0)(nil)).Elem(),
	reflect.TypeOf((*l13b0)(nil)).Elem(),
	reflect.TypeOf((*l13a1)(nil)).Elem(),
	reflect.TypeOf((*l13b1)(nil)).Elem(),
	reflect.TypeOf((*l13a3)(nil)).Elem(),
	reflect.TypeOf((*l13b3)(nil)).Elem(),
	reflect.TypeOf((*l13a4)(nil)).Elem(),
	reflect.TypeOf((*l13b4)(nil)).Elem(),
	reflect.TypeOf((*l13a6)(nil)).Elem(),
	reflect.TypeOf((*l13b6)(nil)).Elem(),
	reflect.TypeOf((*l13a7)(nil)).Elem(),
	reflect.TypeOf((*l13b7)(nil)).Elem(),
	reflect.TypeOf((*l13a9)(nil)).Elem(),
	reflect.TypeOf((*l13b9)(nil)).Elem(),
	reflect.TypeOf((*l13a10)(nil)).Elem(),
	reflect.TypeOf((*l13b10)(nil)).Elem(),
	reflect.TypeOf((*l13a12)(nil)).Elem(),
	reflect.TypeOf((*l13b12)(nil)).Elem(),
	reflect.TypeOf((*l13a13)(nil)).Elem(),
	reflect.TypeOf((*l13b13)(nil)).Elem(),
	reflect.TypeOf((*l13a15)(nil)).Elem(),
	reflect.TypeOf((*l13b15)(nil)).Elem(),
	reflect.TypeOf((*l13a16)(nil)).Elem(),
	reflect.TypeOf((*l13b16)(nil)).Elem(),
	reflect.TypeOf((*l13a19)(nil)).Elem(),
	reflect.TypeOf((*l13b19)(nil)).Elem(),
	reflect.TypeOf((*l13a22)(nil)).Elem(),
	reflect.TypeOf((*l13b22)(nil)).Elem(),
	reflect.TypeOf((*l13a28)(nil)).Elem(),
	reflect.TypeOf((*l13b28)(nil)).Elem(),
	reflect.TypeOf((*l13a34)(nil)).Elem(),
	reflect.TypeOf((*l13b34)(nil)).Elem(),
	reflect.TypeOf((*l13a38)(nil)).Elem(),
	reflect.TypeOf((*l13b38)(nil)).Elem(),
	reflect.TypeOf((*l13a45)(nil)).Elem(),
	reflect.TypeOf((*l13b45)(nil)).Elem(),
	reflect.TypeOf((*l13a49)(nil)).Elem(),
	reflect.TypeOf((*l13b49)(nil)).Elem(),
	reflect.TypeOf((*l16a0)(nil)).Elem(),
	reflect.TypeOf((*l16b0)(nil)).Elem(),
	reflect.TypeOf((*l16a1)(nil)).Elem(),
	reflect.TypeOf((*l16b1)(nil)).Elem(),
	reflect.TypeOf((*l16a3)(nil)).Elem(),
	reflect.TypeOf((*l16b3)(nil)).Elem(),
	reflect.TypeOf((*l16a4)(nil)).Elem(),
	reflect.TypeOf((*l16b4)(nil)).Elem(),
	reflect.TypeOf((*l16a6)(nil)).Elem(),
	reflect.TypeOf((*l16b6)(nil)).Elem(),
	reflect.TypeOf((*l16a7)(nil)).Elem(),
	reflect.TypeOf((*l16b7)(nil)).Elem(),
	reflect.TypeOf((*l16a9)(nil)).Elem(),
	reflect.TypeOf((*l16b9)(nil)).Elem(),
	reflect.TypeOf((*l16a10)(nil)).Elem(),
	reflect.TypeOf((*l16b10)(nil)).Elem(),
	reflect.TypeOf((*l16a12)(nil)).Elem(),
	reflect.TypeOf((*l16b12)(nil)).Elem(),
	reflect.TypeOf((*l16a13)(nil)).Elem(),
	reflect.TypeOf((*l16b13)(nil)).Elem(),
	reflect.TypeOf((*l16a15)(nil)).Elem(),
	reflect.TypeOf((*l16b15)(nil)).Elem(),
	reflect.TypeOf((*l16a16)(nil)).Elem(),
	reflect.TypeOf((*l16b16)(nil)).Elem(),
	reflect.TypeOf((*l16a19)(nil)).Elem(),
	reflect.TypeOf((*l16b19)(nil)).Elem(),
	reflect.TypeOf((*l16a22)(nil)).Elem(),
	reflect.TypeOf((*l16b22)(nil)).Elem(),
	reflect.TypeOf((*l16a28)(nil)).Elem(),
	reflect.TypeOf((*l16b28)(nil)).Elem(),
	reflect.TypeOf((*l16a34)(nil)).Elem(),
	reflect.TypeOf((*l16b34)(nil)).Elem(),
	reflect.TypeOf((*l16a38)(nil)).Elem(),
	reflect.TypeOf((*l16b38)(nil)).Elem(),
	reflect.TypeOf((*l16a45)(nil)).Elem(),
	reflect.TypeOf((*l16b45)(nil)).Elem(),
	reflect.TypeOf((*l16a49)(nil)).Elem(),
	reflect.TypeOf((*l16b49)(nil)).Elem(),
	reflect.TypeOf((*l19a0)(nil)).Elem(),
	reflect.TypeOf((*l19b0)(nil)).Elem(),
	reflect.TypeOf((*l19a1)(nil)).Elem(),
	reflect.TypeOf((*l19b1)(nil)).Elem(),
	reflect.TypeOf((*l19a3)(nil)).Elem(),
	reflect.TypeOf((*l19b3)(nil)).Elem(),
	reflect.TypeOf((*l19a4)(nil)).Elem(),
	reflect.TypeOf((*l19b4)(nil)).Elem(),
	reflect.TypeOf((*l19a6)(nil)).Elem(),
	reflect.TypeOf((*l19b6)(nil)).Elem(),
	reflect.TypeOf((*l19a7)(nil)).Elem(),
	reflect.TypeOf((*l19b7)(nil)).Elem(),
	reflect.TypeOf((*l19a9)(nil)).Elem(),
	reflect.TypeOf((*l19b9)(nil)).Elem(),
	reflect.TypeOf((*l19a10)(nil)).Elem(),
	reflect.TypeOf((*l19b10)(nil)).Elem(),
	reflect.TypeOf((*l19a12)(nil)).Elem(),
	reflect.TypeOf((*l19b12)(nil)).Elem(),
	reflect.TypeOf((*l19a13)(nil)).Elem(),
	reflect.TypeOf((*l19b13)(nil)).Elem(),
	reflect.TypeOf((*l19a15)(nil)).Elem(),
	reflect.TypeOf((*l19b15)(nil)).Elem(),
	reflect.TypeOf((*l19a16)(nil)).Elem(),
	reflect.TypeOf((*l19b16)(nil)).Elem(),
	reflect.TypeOf((*l19a37)(nil)).Elem(),
	reflect.TypeOf((*l19b37)(nil)).Elem(),
	reflect.TypeOf((*l19a43)(nil)).Elem(),
	reflect.TypeOf((*l19b43)(nil)).Elem(),
	reflect.TypeOf((*l19a47)(nil)).Elem(),
	reflect.TypeOf((*l19b47)(nil)).Elem(),
	reflect.TypeOf((*l22a0)(nil)).Elem(),
	reflect.TypeOf((*l22b0)(nil)).Elem(),
	reflect.TypeOf((*l22a1)(nil)).Elem(),
	reflect.TypeOf((*l22b1)(nil)).Elem(),
	reflect.TypeOf((*l22a3)(nil)).Elem(),
	reflect.TypeOf((*l22b3)(nil)).Elem(),
	reflect.TypeOf((*l22a4)(nil)).Elem(),
	reflect.TypeOf((*l22b4)(nil)).Elem(),
	reflect.TypeOf((*l22a6)(nil)).Elem(),
	reflect.TypeOf((*l22b6)(nil)).Elem(),
	reflect.TypeOf((*l22a7)(nil)).Elem(),
	reflect.TypeOf((*l22b7)(nil)).Elem(),
	reflect.TypeOf((*l22a9)(nil)).Elem(),
	reflect.TypeOf((*l22b9)(nil)).Elem(),
	reflect.TypeOf((*l22a10)(nil)).Elem(),
	reflect.TypeOf((*l22b10)(nil)).Elem(),
	reflect.TypeOf((*l22a12)(nil)).Elem(),
	reflect.TypeOf((*l22b12)(nil)).Elem(),
	reflect.TypeOf((*l22a13)(nil)).Elem(),
	reflect.TypeOf((*l22b13)(nil)).Elem(),
	reflect.TypeOf((*l22a15)(nil)).Elem(),
	reflect.TypeOf((*l22b15)(nil)).Elem(),
	reflect.TypeOf((*l22a16)(nil)).Elem(),
	reflect.TypeOf((*l22b16)(nil)).Elem(),
	reflect.TypeOf((*l22a36)(nil)).Elem(),
	reflect.TypeOf((*l22b36)(nil)).Elem(),
	reflect.TypeOf((*l22a40)(nil)).Elem(),
	reflect.TypeOf((*l22b40)(nil)).Elem(),
	reflect.TypeOf((*l22a46)(nil)).Elem(),
	reflect.TypeOf((*l22b46)(nil)).Elem(),
	reflect.TypeOf((*l28a0)(nil)).Elem(),
	reflect.TypeOf((*l28b0)(nil)).Elem(),
	reflect.TypeOf((*l28a4)(nil)).Elem(),
	reflect.TypeOf((*l28b4)(nil)).Elem(),
	reflect.TypeOf((*l28a9)(nil)).Elem(),
	reflect.TypeOf((*l28b9)(nil)).Elem(),
	reflect.TypeOf((*l28a13)(nil)).Elem(),
	reflect.TypeOf((*l28b13)(nil)).Elem(),
	reflect.TypeOf((*l28a34)(nil)).Elem(),
	reflect.TypeOf((*l28b34)(nil)).Elem(),
	reflect.TypeOf((*l28a38)(nil)).Elem(),
	reflect.TypeOf((*l28b38)(nil)).Elem(),
	reflect.TypeOf((*l28a45)(nil)).Elem(),
	reflect.TypeOf((*l28b45)(nil)).Elem(),
	reflect.TypeOf((*l28a49)(nil)).Elem(),
	reflect.TypeOf((*l28b49)(nil)).Elem(),
	reflect.TypeOf((*l29a3)(nil)).Elem(),
	reflect.TypeOf((*l29b3)(nil)).Elem(),
	reflect.TypeOf((*l29a7)(nil)).Elem(),
	reflect.TypeOf((*l29b7)(nil)).Elem(),
	reflect.TypeOf((*l29a12)(nil)).Elem(),
	reflect.TypeOf((*l29b12)(nil)).Elem(),
	reflect.TypeOf((*l29a16)(nil)).Elem(),
	reflect.TypeOf((*l29b16)(nil)).Elem(),
	reflect.TypeOf((*l29a37)(nil)).Elem(),
	reflect.TypeOf((*l29b37)(nil)).Elem(),
	reflect.TypeOf((*l29a43)(nil)).Elem(),
	reflect.TypeOf((*l29b43)(nil)).Elem(),
	reflect.TypeOf((*l29a47)(nil)).Elem(),
	reflect.TypeOf((*l29b47)(nil)).Elem(),
	reflect.TypeOf((*l31a1)(nil)).Elem(),
	reflect.TypeOf((*l31b1)(nil)).Elem(),
	reflect.TypeOf((*l31a6)(nil)).Elem(),
	reflect.TypeOf((*l31b6)(nil)).Elem(),
	reflect.TypeOf((*l31a10)(nil)).Elem(),
	reflect.TypeOf((*l31b10)(nil)).Elem(),
	reflect.TypeOf((*l31a15)(nil)).Elem(),
	reflect.TypeOf((*l31b15)(nil)).Elem(),
	reflect.TypeOf((*l31a36)(nil)).Elem(),
	reflect.TypeOf((*l31b36)(nil)).Elem(),
	reflect.TypeOf((*l31a40)(nil)).Elem(),
	reflect.TypeOf((*l31b40)(nil)).Elem(),
	reflect.TypeOf((*l31a46)(nil)).Elem(),
	reflect.TypeOf((*l31b46)(nil)).Elem(),
	reflect.TypeOf((*l34a0)(nil)).Elem(),
	reflect.TypeOf((*l34b0)(nil)).Elem(),
	reflect.TypeOf((*l34a4)(nil)).Elem(),
	reflect.TypeOf((*l34b4)(nil)).Elem(),
	reflect.TypeOf((*l34a9)(nil)).Elem(),
	reflect.TypeOf((*l34b9)(nil)).Elem(),
	reflect.TypeOf((*l34a13)(nil)).Elem(),
	reflect.TypeOf((*l34b13)(nil)).Elem(),
	reflect.TypeOf((*l34a19)(nil)).Elem(),
	reflect.TypeOf((*l34b19)(nil)).Elem(),
	reflect.TypeOf((*l34a29)(nil)).Elem(),
	reflect.TypeOf((*l34b29)(nil)).Elem(),
	reflect.TypeOf((*l34a36)(nil)).Elem(),
	reflect.TypeOf((*l34b36)(nil)).Elem(),
	reflect.TypeOf((*l34a40)(nil)).Elem(),
	reflect.TypeOf((*l34b40)(nil)).Elem(),
	reflect.TypeOf((*l34a46)(nil)).Elem(),
	reflect.TypeOf((*l34b46)(nil)).Elem(),
	reflect.TypeOf((*l36a0)(nil)).Elem(),
	reflect.TypeOf((*l36b0)(nil)).Elem(),
	reflect.TypeOf((*l36a4)(nil)).Elem(),
	reflect.TypeOf((*l36b4)(nil)).Elem(),
	reflect.TypeOf((*l36a9)(nil)).Elem(),
	reflect.TypeOf((*l36b9)(nil)).Elem(),
	reflect.TypeOf((*l36a13)(nil)).Elem(),
	reflect.TypeOf((*l36b13)(nil)).Elem(),
	reflect.TypeOf((*l36a19)(nil)).Elem(),
	reflect.TypeOf((*l36b19)(nil)).Elem(),
	reflect.TypeOf((*l36a29)(nil)).Elem(),
	reflect.TypeOf((*l36b29)(nil)).Elem(),
	reflect.TypeOf((*l36a36)(nil)).Elem(),
	reflect.TypeOf((*l36b36)(nil)).Elem(),
	reflect.TypeOf((*l36a40)(nil)).Elem(),
	reflect.TypeOf((*l36b40)(nil)).Elem(),
	reflect.TypeOf((*l36a46)(nil)).Elem(),
	reflect.TypeOf((*l36b46)(nil)).Elem(),
	reflect.TypeOf((*l37a0)(nil)).Elem(),
	reflect.TypeOf((*l37b0)(nil)).Elem(),
	reflect.TypeOf((*l37a4)(nil)).Elem(),
	reflect.TypeOf((*l37b4)(nil)).Elem(),
	reflect.TypeOf((*l37a9)(nil)).Elem(),
	reflect.TypeOf((*l37b9)(nil)).Elem(),
	reflect.TypeOf((*l37a13)(nil)).Elem(),
	reflect.TypeOf((*l37b13)(nil)).Elem(),
	reflect.TypeOf((*l37a19)(nil)).Elem(),
	reflect.TypeOf((*l37b19)(nil)).Elem(),
	reflect.TypeOf((*l37a29)(nil)).Elem(),
	reflect.TypeOf((*l37b29)(nil)).Elem(),
	reflect.TypeOf((*l37a36)(nil)).Elem(),
	reflect.TypeOf((*l37b36)(nil)).Elem(),
	reflect.TypeOf((*l37a40)(nil)).Elem(),
	reflect.TypeOf((*l37b40)(nil)).Elem(),
	reflect.TypeOf((*l37a46)(nil)).Elem(),
	reflect.TypeOf((*l37b46)(nil)).Elem(),
	reflect.TypeOf((*l38a0)(nil)).Elem(),
	reflect.TypeOf((*l38b0)(nil)).Elem(),
	reflect.TypeOf((*l38a4)(nil)).Elem(),
	reflect.TypeOf((*l38b4)(nil)).Elem(),
	reflect.TypeOf((*l38a9)(nil)).Elem(),
	reflect.TypeOf((*l38b9)(nil)).Elem(),
	reflect.TypeOf((*l38a13)(nil)).Elem(),
	reflect.TypeOf((*l38b13)(nil)).Elem(),
	reflect.TypeOf((*l38a19)(nil)).Elem(),
	reflect.TypeOf((*l38b19)(nil)).Elem(),
	reflect.TypeOf((*l38a29)(nil)).Elem(),
	reflect.TypeOf((*l38b29)(nil)).Elem(),
	reflect.TypeOf((*l38a36)(nil)).Elem(),
	reflect.TypeOf((*l38b36)(nil)).Elem(),
	reflect.TypeOf((*l38a40)(nil)).Elem(),
	reflect.TypeOf((*l38b40)(nil)).Elem(),
	reflect.TypeOf((*l38a46)(nil)).Elem(),
	reflect.TypeOf((*l38b46)(nil)).Elem(),
	reflect.TypeOf((*l40a0)(nil)).Elem(),
	reflect.TypeOf((*l40b0)(nil)).Elem(),
	reflect.TypeOf((*l40a4)(nil)).Elem(),
	reflect.TypeOf((*l40b4)(nil)).Elem(),
	reflect.TypeOf((*l40a9)(nil)).Elem(),
	reflect.TypeOf((*l40b9)(nil)).Elem(),
	reflect.TypeOf((*l40a13)(nil)).Elem(),
	reflect.TypeOf((*l40b13)(nil)).Elem(),
	reflect.TypeOf((*l40a19)(nil)).Elem(),
	reflect.TypeOf((*l40b19)(nil)).Elem(),
	reflect.TypeOf((*l40a29)(nil)).Elem(),
	reflect.TypeOf((*l40b29)(nil)).Elem(),
	reflect.TypeOf((*l40a36)(nil)).Elem(),
	reflect.TypeOf((*l40b36)(nil)).Elem(),
	reflect.TypeOf((*l40a40)(nil)).Elem(),
	reflect.TypeOf((*l40b40)(nil)).Elem(),
	reflect.TypeOf((*l40a46)(nil)).Elem(),
	reflect.TypeOf((*l40b46)(nil)).Elem(),
	reflect.TypeOf((*l43a0)(nil)).Elem(),
	reflect.TypeOf((*l43b0)(nil)).Elem(),
	reflect.TypeOf((*l43a4)(nil)).Elem(),
	reflect.TypeOf((*l43b4)(nil)).Elem(),
	reflect.TypeOf((*l43a9)(nil)).Elem(),
	reflect.TypeOf((*l43b9)(nil)).Elem(),
	reflect.TypeOf((*l43a13)(nil)).Elem(),
	reflect.TypeOf((*l43b13)(nil)).Elem(),
	reflect.TypeOf((*l43a19)(nil)).Elem(),
	reflect.TypeOf((*l43b19)(nil)).Elem(),
	reflect.TypeOf((*l43a29)(nil)).Elem(),
	reflect.TypeOf((*l43b29)(nil)).Elem(),
	reflect.TypeOf((*l43a36)(nil)).Elem(),
	reflect.TypeOf((*l43b36)(nil)).Elem(),
	reflect.TypeOf((*l43a40)(nil)).Elem(),
	reflect.TypeOf((*l43b40)(nil)).Elem(),
	reflect.TypeOf((*l43a46)(nil)).Elem(),
	reflect.TypeOf((*l43b46)(nil)).Elem(),
	reflect.TypeOf((*l45a0)(nil)).Elem(),
	reflect.TypeOf((*l45b0)(nil)).Elem(),
	reflect.TypeOf((*l45a4)(nil)).Elem(),
	reflect.TypeOf((*l45b4)(nil)).Elem(),
	reflect.TypeOf((*l45a9)(nil)).Elem(),
	reflect.TypeOf((*l45b9)(nil)).Elem(),
	reflect.TypeOf((*l45a13)(nil)).Elem(),
	reflect.TypeOf((*l45b13)(nil)).Elem(),
	reflect.TypeOf((*l45a19)(nil)).Elem(),
	reflect.TypeOf((*l45b19)(nil)).Elem(),
	reflect.TypeOf((*l45a29)(nil)).Elem(),
	reflect.TypeOf((*l45b29)(nil)).Elem(),
	reflect.TypeOf((*l45a36)(nil)).Elem(),
	reflect.TypeOf((*l45b36)(nil)).Elem(),
	reflect.TypeOf((*l45a40)(nil)).Elem(),
	reflect.TypeOf((*l45b40)(nil)).Elem(),
	reflect.TypeOf((*l45a46)(nil)).Elem(),
	reflect.TypeOf((*l45b46)(nil)).Elem(),
	reflect.TypeOf((*l46a0)(nil)).Elem(),
	reflect.TypeOf((*l46b0)(nil)).Elem(),
	reflect.TypeOf((*l46a4)(nil)).Elem(),
	reflect.TypeOf((*l46b4)(nil)).Elem(),
	reflect.TypeOf((*l46a9)(nil)).Elem(),
	reflect.TypeOf((*l46b9)(nil)).Elem(),
	reflect.TypeOf((*l46a13)(nil)).Elem(),
	reflect.TypeOf((*l46b13)(nil)).Elem(),
	reflect.TypeOf((*l46a19)(nil)).Elem(),
	reflect.TypeOf((*l46b19)(nil)).Elem(),
	reflect.TypeOf((*l46a29)(nil)).Elem(),
	reflect.TypeOf((*l46b29)(nil)).Elem(),
	reflect.TypeOf((*l46a36)(nil)).Elem(),
	reflect.TypeOf((*l46b36)(nil)).Elem(),
	reflect.TypeOf((*l46a40)(nil)).Elem(),
	reflect.TypeOf((*l46b40)(nil)).Elem(),
	reflect.TypeOf((*l46a46)(nil)).Elem(),
	reflect.TypeOf((*l46b46)(nil)).Elem(),
	reflect.TypeOf((*l47a0)(nil)).Elem(),
	reflect.TypeOf((*l47b0)(nil)).Elem(),
	reflect.TypeOf((*l47a4)(nil)).Elem(),
	reflect.TypeOf((*l47b4)(nil)).Elem(),
	reflect.TypeOf((*l47a9)(nil)).Elem(),
	reflect.TypeOf((*l47b9)(nil)).Elem(),
	reflect.TypeOf((*l47a13)(nil)).Elem(),
	reflect.TypeOf((*l47b13)(nil)).Elem(),
	reflect.TypeOf((*l47a19)(nil)).Elem(),
	reflect.TypeOf((*l47b19)(nil)).Elem(),
	reflect.TypeOf((*l47a29)(nil)).Elem(),
	reflect.TypeOf((*l47b29)(nil)).Elem(),
	reflect.TypeOf((*l47a36)(nil)).Elem(),
	reflect.TypeOf((*l47b36)(nil)).Elem(),
	reflect.TypeOf((*l47a40)(nil)).Elem(),
	reflect.TypeOf((*l47b40)(nil)).Elem(),
	reflect.TypeOf((*l47a46)(nil)).Elem(),
	reflect.TypeOf((*l47b46)(nil)).Elem(),
	reflect.TypeOf((*l49a0)(nil)).Elem(),
	reflect.TypeOf((*l49b0)(nil)).Elem(),
	reflect.TypeOf((*l49a4)(nil)).Elem(),
	reflect.TypeOf((*l49b4)(nil)).Elem(),
	reflect.TypeOf((*l49a9)(nil)).Elem(),
	reflect.TypeOf((*l49b9)(nil)).Elem(),
	reflect.TypeOf((*l49a13)(nil)).Elem(),
	reflect.TypeOf((*l49b13)(nil)).Elem(),
	reflect.TypeOf((*l49a19)(nil)).Elem(),
	reflect.TypeOf((*l49b19)(nil)).Elem(),
	reflect.TypeOf((*l49a29)(nil)).Elem(),
	reflect.TypeOf((*l49b29)(nil)).Elem(),
	reflect.TypeOf((*l49a36)(nil)).Elem(),
	reflect.TypeOf((*l49b36)(nil)).Elem(),
	reflect.TypeOf((*l49a40)(nil)).Elem(),
	reflect.TypeOf((*l49b40)(nil)).Elem(),
	reflect.TypeOf((*l49a46)(nil)).Elem(),
	reflect.TypeOf((*l49b46)(nil)).Elem(),
}
