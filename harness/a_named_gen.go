package main

// Made by gennamed; see named.go.

import "reflect"

type F00A struct {
	A0   uint8  ``
	Root *F00A  `struct:"root"`
	C    *F00A  `struct-if:"A0>(194)"`
	D_1  F00B   ``
	Ez   string `struct:"size=0x21"`
	Fa9Z bool   `struct:"variantbool,uint8"`
	G    struct {
		A uint8 `struct:"skip=0x0"`
		B F00C  `struct-if:"A !=0"`
	} `struct:"if=(Root\t).A0\t<<\t4\t<33"`
}

type F00B struct {
	A    uint8  ``
	B    bool   ``
	Root *F00A  `struct:"root"`
	Par1 *F00A  `struct:"parent"`
	E    int64  ``
	F    string `struct:"sizefrom=E"`
	G    string `struct:"sizefrom=E"`
	Hñ0  []struct {
		A uint32 `struct:"out=A^ + ( A&^ A),if=(( A<<( 01  ) )!=0x41 ),uint32"`
		B uint32 ``
		C uint8  `struct:"uint8:0x04,sizeof=D"`
		D []int8 ``
	} `struct:"size=Par1.A0\t& 0x7"`
}

type F00C struct {
	A     uint8     ``
	B     int8      ``
	C9    uint32    ``
	D     [][]int32 `struct-size:"A %3" struct-if:"(A != 2 ? B !=\t2 : C9>=\t1)\t&&  (\tC9>=91)" struct:"little"`
	Par   *F00A     `struct:"parent"`
	Root1 *F00C     `struct:"root"`
	Par2  *F00A     `struct:"parent"`
}

type F01A struct {
	A    uint8   ``
	B    int8    ``
	C    int8    `struct:"int8"`
	Root *F01A   `struct:"root"`
	Par1 *F01B   `struct:"parent"`
	Par2 *F01B   `struct:"parent"`
	G    F01B    ``
	H    F01D    ``
	I    []uint8 `struct:"size=Root.Root.A&07"`
	J    struct {
		A *F01C `struct-case:"0x0"`
	} `struct-switch:"Root.A\t&\t(0x1 )"`
	K [0]F01C `struct:"if=4>Root.A&&Par2.B>Par2.B && !(  4!=Root.C\t)"`
}

type F01B struct {
	AZ    uint8  ``
	B     uint32 `struct:"uint32"`
	C     int64  ``
	Par   *F01A  `struct:"parent"`
	Eñ0   []int8 `struct-size:"B  %  3"`
	Par1  *F01A  `struct:"parent"`
	G     uint64 ``
	H     string `struct:"sizefrom=G"`
	Root2 *F01A  `struct:"root"`
}

type F01C struct {
	A     uint8  ``
	B     bool   `struct:"invertedbool,uint64:0x12"`
	Par   *F01A  `struct:"parent"`
	D     uint64 `struct-bits:"0X27"`
	Root1 *F01A  `struct:"root"`
}

type F01D struct {
	A    uint8  `struct:"byte"`
	B    uint16 `struct:"uint16"`
	Root *F01D  `struct:"root"`
	Par1 *F01A  `struct:"parent"`
	Par2 *F01A  `struct:"parent"`
	F    []struct {
		A []float32 `struct-size:"'\\u0002'" struct:"[]float32"`
	} `struct-size:"Par1.A\t&0X7"`
	G struct {
		A9 *int8    `struct:"case=( true )"`
		B  [4]uint8 `struct-case:"true"`
		C  *uint16  `struct:"case=bits.Reverse8(Par2.A) <=2 ? Par1.Par2.AZ<= 0x1 : Par2.C <=5"`
	} `struct-switch:"Par1.C\t==Par1.C"`
	H *F01C `struct:"if=A &\t0x3 ==01"`
}

type F02A struct {
	A   uint8  `struct:"byte"`
	Bz  uint8  ``
	C   bool   ``
	D   uint8  `struct:"uint8"`
	E   []F02B `struct:"sizefrom=D"`
	F9  uint8  `struct:"byte,sizeof=G"`
	G   []F02C ``
	H   bool   `struct:"if=(Bz==Bz ? A  ==03 : Bz< 4 ) ? A>  0x2 : (  Bz==\t5\t)"`
	I   int64  `struct:"int64:0x14,sizeof=J7z"`
	J7z string `struct:"if=0x2<I ? !  H : !\t( Bz<=\tBz),skip=0x3"`
}

type F02B struct {
	A   uint8  ``
	B   uint32 ``
	Par *F02A  `struct:"parent"`
	D   uint16 `struct:"sizeof=E"`
	E   string ``
}

type F02C struct {
	A    uint8  ``
	Root *F02A  `struct:"root"`
	C7z  *F02D  ``
	ÉD_1 string `struct:"skip=0" struct-size:"A  & 0x7 *4"`
}

type F02D struct {
	A7z  uint8   ``
	B    uint8   ``
	Root *F02A   `struct:"root"`
	Par1 *F02A   `struct:"parent"`
	E    []int64 `struct:"size=(B &0X7)"`
	ÉFé  bool    `struct:"invertedbool,if=-(Root).Bz==2,variantbool,uint8"`
	Ga9Z uint16  `struct-bits:"Par1.A&03  +1"`
}

type F03A struct {
	Aé  uint8    ``
	B   uint8    `struct:"byte"`
	C   uint32   ``
	Dñ0 uint32   `struct:"uint32"`
	E   uint16   ``
	F   []uint32 `struct:"size=E"`
	Par *F03C    `struct:"parent"`
	H   *F03A    `struct-if:"Aé> 157"`
	I   uint8    ``
	J   []F03B   `struct:"sizefrom=I,if=0X3<=Aé\t||E!=0  ||Aé !=2"`
	K   string   `struct:"sizefrom=Dñ0"`
}

type F03B struct {
	A    uint8  ``
	B    uint16 `struct:"uint16"`
	Root *F03A  `struct:"root"`
	Par1 *F03A  `struct:"parent"`
	Par2 *F03A  `struct:"parent"`
	F0   uint8  `struct:"byte,sizeof=G"`
	G    []F03C ``
	H    uint8  ``
	I    []bool `struct:"sizefrom=H"`
	J    int64  `struct:"sizeof=K"`
	K    []int8 `struct:"if=( Par1.Par.B7z*\t0\t) >0x1"`
}

type F03C struct {
	A    uint8    ``
	B7z  uint8    ``
	Par  *F03B    `struct:"parent"`
	Par1 *F03C    `struct:"parent"`
	E    []uint16 `struct-if:"Par.B  >=4||  bits.Reverse8(Par.Par1.B)\t<=  0122 ? ! (A!=  0X2) : ! ( A!=  04  )" struct-size:"(Par ).Par1.Aé &  15"`
	F    uint16   `struct:"if=(! !\t( bits.Reverse8(B7z) <Par.Par1.Aé\t)),uint16:0x0b"`
	G9   []*int8  `struct-size:"Par.Par1.C & 3"`
}

type F04A struct {
	A    uint8  ``
	B    uint8  ``
	ÉC_  uint8  ``
	Par  *F04A  `struct:"parent"`
	Par1 *F04B  `struct:"parent"`
	F    uint64 `struct:"sizeof=Iñ0"`
	G7z  int32  ``
	H    F04B   ``
	Iñ0  string `struct:"string"`
	J    []F04B `struct-while:"(!_eof )"`
}

type F04B struct {
	A   uint8  ``
	B   uint16 ``
	C   uint32 ``
	D   int32  `struct-if:"1 & A== 19" struct-out:"D^( B<0X33 ? D &D : D+04)"`
	E   *F04B  `struct:"if=A  >'¬'"`
	Par *F04A  `struct:"parent"`
}

type F05A struct {
	A    uint8 ``
	Root *F05B `struct:"root"`
	Par1 *F05B `struct:"parent"`
	Par2 *F05C `struct:"parent"`
	E    struct {
		A uint8 ``
		B F05B  `struct-if:"A\t!=0X0"`
	} `struct:"skip=0x2"`
	F   string `struct-size:"3" struct:"if=(Root.A  >=0X7 ? ((Root).B) : Root.B\t)  >= +Root.B"`
	ÉGz uint8  ``
	H   []F05C `struct:"sizefrom=ÉGz"`
}

type F05B struct {
	A    uint8  `struct:"byte"`
	B    uint8  `struct:"uint8"`
	Root *F05A  `struct:"root"`
	D    uint8  `struct:"bits=(A& 0X3)+ 1" struct-if:"B <  99\t||(  A<= ( 0x5))"`
	Ez   int64  `struct:"int64,bits=D\t&3+ 0X1"`
	Fa9Z string `struct:"-"`
}

type F05C struct {
	Aa9Z uint8  ``
	Par  *F05A  `struct:"parent"`
	C9   *F05C  `struct-if:"Aa9Z&3== 03"`
	Da9Z uint64 `struct:"skip=2"`
	E    string `struct:"[3]byte"`
	F    bool   `struct:"if=!(Par.Par1.A< 0x3\t) ? bits.Reverse8(Par.Root.B)\t<= 0x2 : bits.Reverse8(Par.A) !=Par.Root.A,invertedbool,uint8"`
	Gé   string `struct:"sizefrom=Da9Z,[]uint8,if=18>  Par.A"`
}

type F06A struct {
	A    uint8 `struct:"uint8"`
	Root *F06A `struct:"root"`
	Par1 *F06A `struct:"parent"`
	Par2 *F06D `struct:"parent"`
	E    int64 `struct:"int64:0x4"`
	F    uint8 `struct:"byte" struct-if:"( !\t(\tRoot.A !='>'))"`
	G    int16 `struct:"int16"`
	H    struct {
		A *F06D `struct:"case=0x0"`
	} `struct-switch:"A &0x1"`
	I struct {
		A *F06B `struct:"case=0"`
		B *F06D `struct:"default"`
	} `struct:"switch=Root.A&0X1"`
	Jñ0 *F06C  ``
	K   uint8  ``
	L   []F06D `struct-if:"0<  (E  <= 0x76 ? Root.A : A)" struct:"sizefrom=K"`
}

type F06B struct {
	A    uint8  ``
	B    uint32 ``
	C    bool   ``
	Root *F06A  `struct:"root"`
	Par1 *F06B  `struct:"parent"`
	Par2 *F06A  `struct:"parent"`
	G    struct {
		A bool   `struct:"default"`
		B [0]int `struct:"network,case=03"`
		C *uint8 `struct:"-"`
	} `struct:"if=(Par2.Par1.A\t!=bits.Reverse8(Par2.Par2.A7z) ? ( B ) : bits.Reverse32(B))==  2,switch=(Par2  ).A\t&  3"`
	H string `struct:"size=Par2.A&15"`
	I *F06B  `struct:"if=(A& 3== 0X2)"`
}

type F06C struct {
	A0   uint8  ``
	B    uint8  ``
	Par  *F06A  `struct:"parent"`
	Par1 *F06A  `struct:"parent"`
	E    string `struct:"[4]uint8,little"`
}

type F06D struct {
	A7z   uint8  ``
	ÉBa9Z uint8  ``
	Root  *F06A  `struct:"root"`
	Par1  *F06A  `struct:"parent"`
	E     int64  `struct:"int64:0x2"`
	F     uint8  ``
	G     uint8  `struct:"uint8:3"`
	ÉH0   string `struct:"sizefrom=G"`
}

type F07A struct {
	A    uint8  ``
	B    uint16 ``
	C    uint8  ``
	Par  *F07B  `struct:"parent"`
	Par1 *F07B  `struct:"parent"`
	F    uint8  `struct-if:"B<< 0X2 >= 02"`
	G_1  uint64 ``
	H    struct {
		A uint8 ``
		B F07B  `struct-if:"A !=0"`
	} `struct:"lsb"`
}

type F07B struct {
	A    uint8  ``
	ÉBZ  uint32 ``
	C9   uint32 `struct:"skip=0"`
	Root *F07A  `struct:"root"`
	Par1 *F07A  `struct:"parent"`
	Fñ0  uint8  `struct:"if=(\t'-'<Par1.A&&\t4<=Par1.C),byte:0b101"`
}

type F08A struct {
	A    uint8  ``
	Root *F08A  `struct:"root"`
	Par1 *F08A  `struct:"parent"`
	Par2 *F08A  `struct:"parent"`
	E    uint16 `struct-if:"Par2.Par2.A!= Par2.A&&( Par2.Par2.A )\t>\tRoot.A||((E<00) ? Par2.A<=(33  ) : Root.A>=(\t0x7)  )" struct:"in=E  + 0x2" struct-out:"E  -\t2"`
	F    bool   `struct:"uint32,variantbool"`
	G    struct {
		A F08B `struct-case:"0x1"`
	} `struct:"skip=0" struct-switch:"(  Root.A) &01"`
	H int8 `struct:"skip=0x02,if=Root.Root.A  -(2)>='\\x02'"`
}

type F08B struct {
	Az   uint8 ``
	Root *F08A `struct:"root"`
	Par1 *F08A `struct:"parent"`
	D    bool  `struct:"uint32,invertedbool"`
	E    int32 `struct:"int32,if=Az ==0x5&&Par1.A==2"`
}

type F09A struct {
	AZ   uint8  ``
	B    int64  `struct:"int64:02"`
	Root *F09A  `struct:"root"`
	DZ   uint64 ``
	E    uint8  `struct:"sizeof=F,byte"`
	F    []F09B ``
	Par1 *F09A  `struct:"parent"`
}

type F09B struct {
	A    uint8 ``
	BZ   bool  `struct:"bool"`
	C    uint8 ``
	Par  *F09A `struct:"parent"`
	Par1 *F09B `struct:"parent"`
	F    bool  `struct:"invertedbool"`
}

type F10A struct {
	A   uint8   ``
	B_1 uint8   ``
	C   uint8   ``
	D   uint8   ``
	E   [0]F10C `struct-if:"-\tA=='\\x0d'"`
	F   string  `struct:"[0X2]uint8"`
	G   uint32  `struct:"if=C  %5\t== 0X3D,uint32,bits=(\tA\t&7)+ 1"`
	Hz  struct {
		A F10B  `struct:"case=0x0"`
		B *F10C `struct:"default"`
	} `struct:"switch=B_1 &0X1"`
}

type F10B struct {
	A    uint8    ``
	B    uint16   ``
	Root *F10A    `struct:"root"`
	Dz   *F10B    `struct-if:"A  >177"`
	E    string   `struct-size:"1"`
	F    []uint8  `struct:"[]uint8,size=3"`
	G    []uint32 `struct:"[]uint32" struct-size:"( Root ).B_1&07"`
}

type F10C struct {
	A0   uint8 `struct:"skip=0"`
	B    uint8 ``
	Par  *F10A `struct:"parent"`
	Par1 *F10A `struct:"parent"`
	E    int64 `struct:"int64"`
}

type F11A struct {
	A uint8 ``
	B int64 `struct:"if=(04>\tA ? 02==  A : bits.Reverse8(A)\t<= A)||  (\tbits).Reverse8(A)!=0X2,skip=02"`
	C F11C  ``
	D int16 ``
	E struct {
		A F11B `struct-case:"0"`
	} `struct:"switch=A &0x1"`
	F    *F11A  `struct:"if=A &  03== 0x2"`
	G    uint64 `struct-bits:"43" struct:"uint64"`
	Root *F11A  `struct:"root"`
}

type F11B struct {
	A9   uint8  ``
	B    uint32 ``
	C    uint8  ``
	Par  *F11C  `struct:"parent"`
	Par1 *F11A  `struct:"parent"`
	F    uint16 ``
	Gz   string `struct-size:"Par1.A&7"`
}

type F11C struct {
	A    uint8  `struct:"byte"`
	B    uint8  ``
	C    uint8  ``
	Root *F11A  `struct:"root"`
	Ez   string `struct:"size=37"`
}

type F12A struct {
	Aa9Z  uint8  `struct:"skip=0"`
	Par   *F12B  `struct:"parent"`
	ÉCa9Z uint8  `struct:"if=((Par\t).A!=\t03 ? Par.A< 01 : Par.A<Par.A) ? (Par ).A  ==\t0X1  || Aa9Z<3 : ! (\tPar.A<=\t05  )"`
	Root1 *F12A  `struct:"root"`
	E     uint16 `struct:"if=(bits.Reverse8(Root1.Root1.Aa9Z)==0X5\t&& !(  Root1.Root1.Aa9Z  ==  4))"`
	F     struct {
		A F12B `struct-case:"00"`
	} `struct-switch:"Aa9Z\t&0X1"`
	G    string `struct-size:"016"`
	Par2 *F12B  `struct:"parent"`
	I    []F12C `struct:"while=! _eof"`
}

type F12B struct {
	A   uint8  ``
	B   bool   ``
	Par *F12A  `struct:"parent"`
	D   F12C   ``
	E   string `struct:"[0x1]uint8,if=(  ((Par ).Par).A  >=\t'\\u0003'\t||B  ) &&(Par.Aa9Z<= Par.Aa9Z ? Par.Par.B : (  Par.Root1).Aa9Z!=\t0X4)"`
}

type F12C struct {
	A    uint8  ``
	Root *F12A  `struct:"root"`
	C    *F12C  `struct:"skip=0X0,if=(\tA & 3\t)\t==03"`
	D    uint64 `struct:"bits=(  Root.Root1 ).Aa9Z &( 07 )  +\t1"`
}

type F13A struct {
	A    uint8  ``
	Root *F13A  `struct:"root"`
	C    uint32 `struct:"uint32:0x1"`
	D    uint8  `struct:"in=D ^5,out=05 ^ D"`
	Ez   *F13B  ``
	F    string `struct:"sizefrom=C" struct-if:"(  bits.Reverse32 )(C)\t% 0X5 !=  0X1"`
}

type F13B struct {
	Aa9Z uint8  ``
	Root *F13A  `struct:"root"`
	C    string `struct:"[02]uint8" struct-if:"Root.A== 3  &&(\tRoot.A== 0x2||Aa9Z\t<=  28)"`
	D0   *F13A  `struct-if:"Aa9Z& 0x3==0X1"`
	E    bool   `struct:"variantbool,bool,network"`
	F    struct {
		A string  `struct:"if=E,[3]uint8" struct-case:"\"],\""`
		B float64 `struct:"case=false" struct-if:"bits.Reverse8(Root.A)| (bits.Reverse8)(Aa9Z) ==1"`
	} `struct:"switch=Aa9Z &  3"`
}

type F14A struct {
	A    uint8 ``
	Root *F14A `struct:"root"`
	C    struct {
		A uint8 `struct:"uint8"`
		B F14C  `struct:"if=(A )!=0x0"`
	} `struct:"lsb" struct-if:"( bits.Reverse8(Root.A)<2) &&Root.A<Root.A ? Root.A<0X49 : ( bits.Reverse8(Root.A)< 99 )"`
	D_ [0]F14B ``
	E  string  `struct:"lsb,size=Root.A& 15"`
}

type F14B struct {
	A    uint8  ``
	B    bool   ``
	C    bool   ``
	Root *F14A  `struct:"root"`
	E    string `struct:"size=A,skip=01"`
	F    string `struct-if:"C\t||\t( Root.A ) <0X3" struct:"[2]uint8"`
}

type F14C struct {
	A    uint8  ``
	B    bool   ``
	C    uint8  ``
	Root *F14A  `struct:"root"`
	Par1 *F14A  `struct:"parent"`
	F7z  string `struct:"[0X4]uint8"`
	G    uint16 `struct:"if=bits.Reverse8(A) %  ( 1\t)> (\t0X4D  )"`
	H    int64  `struct:"int64"`
}

type F15A struct {
	ÉA0 uint8   ``
	B   uint32  ``
	C   uint32  `struct:"skip=0x00"`
	D   []uint8 `struct:"size=B"`
	E   F15B    `struct:"skip=0x3"`
}

type F15B struct {
	ÉAa9Z uint8  ``
	B     uint16 ``
	C     int8   ``
	Root  *F15A  `struct:"root"`
	E     uint8  `struct:"uint8"`
	F9    []F15C `struct:"sizefrom=E"`
	Gz    int64  `struct:"int64:0b111100,in=Gz>01,skip=3" struct-out:"Gz-0x69"`
	Ha9Z  uint8  `struct:"uint8:0b111" struct-if:"(1)!=( B /'\\u0005'  )"`
	I     uint8  `struct:"uint8:4"`
	J     []struct {
		A string `struct-size:"0X2"`
		B uint8  `struct:"uint8"`
		C uint64 ``
	} `struct:"if=Root.C  >01 &&  Root.ÉA0<= 0x3,sizefrom=I"`
	K *F15C ``
}

type F15C struct {
	A    uint8  ``
	B    uint16 `struct:"uint16"`
	Root *F15A  `struct:"root"`
	Par1 *F15B  `struct:"parent"`
	E0   bool   ``
}

type F16A struct {
	A    uint8 `struct:"uint8"`
	B    int8  ``
	C    uint8 ``
	Par  *F16A `struct:"parent"`
	Par1 *F16C `struct:"parent"`
	F    struct {
		A [0]uint16 `struct-case:"0x2"`
		B string    `struct:"[0x2]uint8,case=0X0"`
	} `struct-switch:"(Par.A&03)"`
	G *F16C ``
	H uint8 `struct:"sizeof=Lz"`
	I F16B  ``
	J struct {
		A *F16D `struct:"skip=0,case=1"`
	} `struct-switch:"Par.C&\t1"`
	K struct {
		A *F16D `struct-case:"'\\x01'"`
	} `struct-switch:"(\tB &  1)"`
	Lz []float32 `struct:"if=B!= 5 &&Par.B >= 054||bits.Reverse8(A) <\tC"`
}

type F16B struct {
	Añ0  uint8  `struct:"uint8"`
	B    bool   ``
	C    uint8  ``
	Root *F16A  `struct:"root"`
	Par1 *F16A  `struct:"parent"`
	F    uint16 ``
}

type F16C struct {
	A    uint8  ``
	B    uint16 ``
	Root *F16A  `struct:"root"`
	D    uint8  `struct:"byte,bits=2"`
}

type F16D struct {
	A    uint8       ``
	B    int8        ``
	C    uint32      ``
	Root *F16A       `struct:"root"`
	E    uint64      `struct:"skip=01,sizeof=Fa9Z"`
	Fa9Z [][3]uint32 `struct:"skip=0x1"`
	G    []uint8     `struct:"size=A,if=Root.B >(\t'\\x0c')"`
}

type F17A struct {
	A    uint8   ``
	Root *F17A   `struct:"root"`
	Par1 *F17C   `struct:"parent"`
	D    [1]F17B ``
	E9   struct {
		A *F17B `struct-case:"1"`
		B *F17C `struct:"skip=0,default"`
	} `struct:"switch=Root.A &1"`
	F    uint16 `struct:"uint16:0x01,sizeof=ÉG_1"`
	ÉG_1 string `struct-if:"Root.A>=  '\\u0005' &&(A <  2&&\tA >5 )" struct:"[]uint8"`
	H    *F17C  ``
}

type F17B struct {
	A    uint8  ``
	B    bool   `struct:"bool"`
	C_   uint8  ``
	Root *F17A  `struct:"root"`
	Par1 *F17A  `struct:"parent"`
	F    string `struct-size:"Root.Par1.A&  0x1"`
	G    int64  `struct:"bits=Par1.A&03\t+0X1" struct-if:"- Root.A  > +Par1.A"`
	H    uint16 `struct-if:"A!=014\t&&B"`
}

type F17C struct {
	A    uint8   ``
	Root *F17A   `struct:"root"`
	C_1  int32   ``
	Dñ0  []int64 `struct-if:"0X13  < Root.A&&  1==C_1" struct-size:"C_1\t&0X7*\t0x4"`
	E    []int16 `struct-size:"02"`
}

type F18A struct {
	AZ   uint8  ``
	Bé   int8   ``
	Ca9Z uint16 ``
	Dé   string `struct:"size=AZ &\t1"`
	E    F18C   ``
	ÉF0  uint8  ``
	G    []F18C `struct:"sizefrom=ÉF0"`
	H    uint16 `struct:"uint16"`
	I    F18B   `struct:"if=H\t< - (H\t)"`
	J    int16  ``
	Kñ0  string `struct:"sizefrom=H"`
	L    string `struct:"sizefrom=J"`
}

type F18B struct {
	A    uint8   ``
	BZ   uint8   `struct:"skip=0b0"`
	C    int8    `struct:"skip=0"`
	Par  *F18A   `struct:"parent"`
	Par1 *F18A   `struct:"parent"`
	F    int64   `struct:"bits=Par1.AZ& 0X3+\t0x1"`
	G    []int32 `struct-size:"1" struct:"skip=0X2"`
}

type F18C struct {
	Az   uint8   ``
	B    int8    `struct:"int8"`
	C7z  uint16  `struct:"uint16"`
	Root *F18A   `struct:"root"`
	Par1 *F18A   `struct:"parent"`
	Par2 *F18A   `struct:"parent"`
	Gñ0  uint16  `struct:"sizeof=I,little"`
	H_1  F18D    ``
	I    []int32 `struct:"if=( 0x3\t< Root.Bé ? 0x1\t<=( Root.AZ) : Par2.AZ !=\tRoot.AZ )&&( Par1 ).Ca9Z>\t0X60"`
}

type F18D struct {
	A_1  uint8  `struct:"byte"`
	Root *F18A  `struct:"root"`
	C    uint64 `struct:"uint64:0x2f"`
	D    uint32 `struct:"if=Root.Ca9Z <02  ||  '\\u007f'==  Root.Bé" struct-in:"D!=0x2"`
	E    string `struct:"sizefrom=C,if=(\t(bits.Reverse8 )(A_1) >=1 ? Root.AZ>\t((Root).AZ) : Root.Ca9Z  != 63) ? Root.Bé==Root.Bé : !(Root.AZ==(0X1))"`
}

type F19A struct {
	A    uint8   ``
	B    uint16  ``
	C    uint16  ``
	Par  *F19A   `struct:"parent"`
	Par1 *F19A   `struct:"parent"`
	F    []uint8 `struct:"size=C  &\t0xf"`
	G    *F19B   `struct:"if=A<  3 ? 0> ( B)||C< C : B==\t4"`
}

type F19B struct {
	A   uint8  ``
	Par *F19B  `struct:"parent"`
	C   uint8  `struct:"little,skip=0X1,bits=A&  0x7"`
	D   bool   `struct:"bool,big"`
	E   string `struct-if:"((  A>  (0x4 ) ? C!=  C : bits.Reverse8(A) <=(A\t) )|| (D ? D : (D  )))" struct:"size=A&7,big"`
}

type F20A struct {
	A   uint8   ``
	B   bool    ``
	C   *F20B   ``
	ÉDé int8    ``
	Eé  [2]F20D ``
}

type F20B struct {
	A    uint8  ``
	BZ   int8   ``
	C    uint8  ``
	Root *F20A  `struct:"root"`
	Par1 *F20A  `struct:"parent"`
	Fz   F20C   ``
	G7z  uint16 `struct:"skip=0b0,bits=02,if=! ( '7'<=Root.A ) ? (\t0X20  == (BZ\t)\t) : ( Root.A  <  2)"`
	H    uint32 `struct:"uint32:0x0b"`
}

type F20C struct {
	A    uint8  ``
	B    uint32 ``
	C    uint16 ``
	Root *F20A  `struct:"root"`
	Par1 *F20B  `struct:"parent"`
	F    string `struct:"if=Par1.Root.B,size=Par1.A&  7"`
	G_1  int64  `struct-bits:"(C&7 +( 0X1))" struct-if:"(! (\tPar1.BZ >(Par1 ).BZ )||  Par1.Root.A\t<0X1\t)"`
	H    struct {
		A     *float64 `struct:"default"`
		ÉBa9Z *uint8   `struct-case:"( 2)"`
		C     *int16   `struct-case:"1"`
		Dé    *bool    `struct-case:"( Root).A^Par1.C" struct-if:"B>>03  < 0x5"`
	} `struct:"if=F!= (\"\"\t)" struct-switch:"Root.A"`
}

type F20D struct {
	A    uint8  ``
	B    uint16 ``
	C    uint8  ``
	Root *F20A  `struct:"root"`
	E    uint32 `struct:"uint32:3"`
	Fz   uint64 `struct-if:"A>00 || (bits.Reverse8(C)<  '\\u0004' ? C\t<=Root.A : E == E)" struct-bits:"B&(0x3)"`
	G    string `struct:"size=A&(3  )"`
}

type F21A struct {
	A uint8  ``
	B bool   ``
	C uint16 `struct:"uint16:0x1,skip=0b11,sizeof=J"`
	D struct {
		A uint8 `struct:"byte"`
		B F21B  `struct-if:"A\t!=0x0"`
	} `struct:"if=C!= 02 ? A\t>A||\tbits.Reverse16(C) != 02 : 00>=C&&\tB"`
	Par *F21B `struct:"parent"`
	ÉF9 struct {
		A []bool `struct:"[0x3]bool,case=Par.A  <Par.B,big"`
	} `struct-switch:"B"`
	Par1  *F21B  `struct:"parent"`
	Root2 *F21A  `struct:"root"`
	I_1   int16  `struct:"if=(0X0  !=Par.B )\t||\tB ? 3\t<=\tRoot2.A : ( A  != 1) ? Par.B>=Root2.A : 40<Root2.A"`
	J     string `struct:"if=( Root2.A!=1 ? Par.A> Root2.A : I_1<= I_1) ? !(A <= 5  ) : ! B"`
	K     []F21B `struct-while:"(! _eof )"`
}

type F21B struct {
	A    uint8     ``
	B    uint8     `struct:"byte"`
	Par  *F21A     `struct:"parent"`
	Par1 *F21A     `struct:"parent"`
	E    uint32    `struct:"sizeof=F9,uint32"`
	F9   [][3]uint `struct:"skip=1"`
}

type F22A struct {
	A    uint8 `struct:"byte"`
	B    uint8 ``
	Root *F22A `struct:"root"`
	Par1 *F22B `struct:"parent"`
	EZ   struct {
		A F22B `struct-case:"0"`
	} `struct:"switch=A&  1"`
	Fé []uint64 `struct:"size=02"`
}

type F22B struct {
	A    uint8  `struct:"byte"`
	Bz   uint16 ``
	Root *F22A  `struct:"root"`
	Par1 *F22A  `struct:"parent"`
	Ea9Z []struct {
		A string `struct:"-"`
	} `struct:"size=Par1.B &  0X3"`
	F uint16 `struct:"uint16:0x1"`
	G string `struct:"skip=01,sizefrom=F,[]uint8"`
	H int64  `struct:"bits=(  Root.B ) &0X7 +1"`
}

type F23A struct {
	A    uint8  ``
	ÉB7z bool   ``
	C    uint16 `struct:"uint16"`
	D    *F23A  `struct-if:"A  >0xaa"`
	ÉEZ  uint16 `struct:"uint16:0x0c"`
	F9   F23B   `struct-if:"!(ÉEZ<=C )"`
	Root *F23A  `struct:"root"`
	H    struct {
		A uint8 ``
		B F23C  ``
	} ``
	I_1 []F23C `struct-while:"! _eof"`
}

type F23B struct {
	A    uint8  ``
	Par  *F23B  `struct:"parent"`
	C    uint32 `struct:"if=A\t*76<=0X1C,uint32"`
	Da9Z int64  ``
	E    int64  `struct:"bits=(A) &\t3+1"`
}

type F23C struct {
	A    uint8    `struct:"uint8"`
	Root *F23A    `struct:"root"`
	C    []uint16 `struct:"[]uint16" struct-size:"A  & 7+01"`
}

type F24A struct {
	ÉAñ0 uint8   ``
	Root *F24A   `struct:"root"`
	Par1 *F24B   `struct:"parent"`
	D    bool    `struct:"int16,variantbool"`
	E    uint8   `struct:"sizeof=HZ,msb"`
	F    [1]F24B ``
	G9   int64   `struct:"sizeof=I"`
	HZ   []bool  ``
	I    []uint8 `struct:"[]byte"`
}

type F24B struct {
	A   uint8  ``
	B   string `struct:"[0X1]byte"`
	Par *F24A  `struct:"parent"`
	D   []struct {
	} `struct:"size=2"`
}

type F25A struct {
	A    uint8   ``
	B9   int8    ``
	Root *F25A   `struct:"root"`
	Da9Z uint16  `struct:"out=Da9Z ^\t( Da9Z+5)/ (  '\\u0004'  ),in=(\tDa9Z^(Da9Z  +5 )  /0X4)"`
	E    [2]F25B ``
}

type F25B struct {
	A    uint8 ``
	B    bool  ``
	Par  *F25A `struct:"parent"`
	Par1 *F25A `struct:"parent"`
	E    *F25A `struct:"if=A>0XB4"`
	F    bool  `struct:"if=(\tPar).A*Par.A<  2,invertedbool"`
	G    bool  `struct:"-"`
	ÉH7z struct {
		A [3]int32 `struct-case:"false"`
		B bool     `struct:"-"`
	} `struct:"switch=(A > 03  )"`
}

type F26A struct {
	A   uint8  ``
	B   uint8  ``
	C   bool   ``
	D   string `struct:"size=(0  )"`
	E   uint32 `struct-bits:"B\t&3 + 1" struct:"uint32"`
	F_1 uint8  ``
	G   []F26B `struct:"sizefrom=F_1"`
	H   uint8  ``
	I   []F26C `struct:"sizefrom=H"`
	J   string `struct:"lsb,[0X2]byte"`
	K   struct {
		A F26C `struct:"case=0"`
	} `struct:"switch=A& 0X1"`
}

type F26B struct {
	A    uint8  ``
	Bé   int8   `struct:"skip=0"`
	C    uint8  `struct:"uint8"`
	Root *F26A  `struct:"root"`
	E    string `struct:"-"`
	F    int64  `struct:"int64:0x6"`
	G    uint32 `struct-bits:"C&7"`
}

type F26C struct {
	Aé   uint8  ``
	B    uint8  ``
	C_1  bool   `struct:"bool"`
	Root *F26A  `struct:"root"`
	E    uint64 `struct-out:"E -  '\\u0002'" struct-in:"E  + '\\u0002'"`
}

type F27A struct {
	Añ0  uint8  `struct:"skip=0"`
	Root *F27A  `struct:"root"`
	Par1 *F27B  `struct:"parent"`
	D    int8   ``
	E    string `struct:"[]byte,sizefrom=D"`
	F0   struct {
		A uint8 ``
		B F27B  `struct:"if=A!=0X0"`
	} ``
}

type F27B struct {
	A    uint8  ``
	ÉB_  uint8  ``
	Ca9Z uint32 ``
	Root *F27B  `struct:"root"`
	Par1 *F27A  `struct:"parent"`
	Par2 *F27A  `struct:"parent"`
	G    int16  ``
}

type F28A struct {
	A    uint8  `struct:"uint8"`
	B    int8   ``
	C    int8   ``
	Root *F28A  `struct:"root"`
	Par1 *F28A  `struct:"parent"`
	F    F28B   `struct-if:"C>=3" struct:"msb"`
	G_1  string `struct:"size=Root.C  &01" struct-if:"^bits.Reverse8(Root.A) >=\t' '"`
}

type F28B struct {
	A    uint8  ``
	B    uint8  ``
	Root *F28A  `struct:"root"`
	Par1 *F28A  `struct:"parent"`
	E    *uint8 `struct:"-"`
	F    int64  `struct-if:"(  Par1.Par1.C <  (Par1.Root.B ) ? Par1.C : Root.C  )\t> (Par1.Par1.A<=\t0X1 ? Root.C : Root.Root.B)"`
}

type F29A struct {
	ÉAz  uint8   `struct:"uint8"`
	Root *F29A   `struct:"root"`
	Par1 *F29A   `struct:"parent"`
	Par2 *F29A   `struct:"parent"`
	E    int32   ``
	F    []uint8 `struct:"sizefrom=E"`
	G7z  int8    `struct:"if=0x5 ^\tRoot.ÉAz\t==\t3" struct-out:"G7z^ (\t(G7z\t)% 05-G7z &  0x52\t)"`
	H    uint8   `struct:"uint8,sizeof=I"`
	I    []F29B  ``
	J    []F29B  `struct-while:"!_eof"`
}

type F29B struct {
	A   uint8  ``
	BZ  bool   ``
	Par *F29B  `struct:"parent"`
	D   uint16 ``
}

type F30A struct {
	AZ    uint8  ``
	B     uint8  `struct:"byte"`
	ÉCa9Z uint32 ``
	Par   *F30B  `struct:"parent"`
	E     string `struct-if:"2<B>>4" struct:"size=Par.A&0X7"`
	F9    struct {
		A F30B `struct:"skip=0X0,case=1"`
	} `struct-switch:"(  Par.A&(  1 )  )"`
	GZ struct {
		A *F30B `struct:"case=(1)"`
	} `struct:"switch=AZ&\t1"`
	H *F30A `struct:"if=AZ &  0X3 ==0x1"`
}

type F30B struct {
	A    uint8   `struct:"uint8"`
	B    uint8   ``
	Root *F30A   `struct:"root"`
	ÉD_1 int16   `struct:"sizeof=Eñ0"`
	Eñ0  []uint8 ``
	F    uint64  ``
}

type F31A struct {
	A    uint8  ``
	Par  *F31B  `struct:"parent"`
	Par1 *F31B  `struct:"parent"`
	D_   F31B   `struct:"if=bits.Reverse8(A) > 0x1||A\t> 0X2 || (0x2 <  A ||  A>116  )"`
	E    bool   `struct:"if=A% 0X1!=  A &bits.Reverse8(A),variantbool,uint16:0x07,little"`
	ÉFz  *F31A  `struct-if:"(A\t)&  03  == 0X3"`
	G    uint16 `struct:"uint16"`
}

type F31B struct {
	A    uint8 ``
	Root *F31A `struct:"root"`
	Par1 *F31A `struct:"parent"`
	Par2 *F31B `struct:"parent"`
	E    int16 `struct:"if=!(A ==Root.A ? (A ) < 0 : Root.A\t==  17 )"`
}

type F32A struct {
	A    uint8  ``
	Root *F32A  `struct:"root"`
	C    *F32C  `struct:"skip=0" struct-if:"Root.A\t|0x2<=\t0x1"`
	D    uint8  `struct:"sizeof=E"`
	E    []F32B ``
	Fñ0  *F32C  `struct-if:"! (  Root.A <\t'\\x01' ) ? Root.A <='q'||(  (Root.A )  <  A ) : (Root.A )<= 0x4" struct:"network"`
	G    int64  `struct-if:"Root.A>2||(Root.A>=\t1 ? (Root).A  != 1 : A\t>=\t0x50)" struct:"bits=54"`
}

type F32B struct {
	A    uint8  ``
	Root *F32A  `struct:"root"`
	Par1 *F32A  `struct:"parent"`
	D    *F32B  `struct-if:"A&0X3==2"`
	E    int64  `struct:"int64:5"`
	F    string `struct:"sizefrom=E"`
}

type F32C struct {
	A    uint8   `struct:"skip=0"`
	B    uint8   ``
	C    uint16  `struct:"uint16"`
	Root *F32A   `struct:"root"`
	Par1 *F32A   `struct:"parent"`
	F0   []uint8 `struct-size:"Root.A&  3"`
	G    int64   `struct:"int64:0x1" struct-out:"G^  0\t&(  G&  G)"`
	H    string  `struct:"-"`
}

type F33A struct {
	ÉA9  uint8 ``
	Root *F33B `struct:"root"`
	Par1 *F33A `struct:"parent"`
	Dñ0  int64 `struct-out:"Dñ0- 01" struct:"skip=3" struct-in:"Dñ0 +0X1"`
	E    struct {
		A uint8 ``
		B F33B  ``
	} `struct:"if=Dñ0<=\t17"`
}

type F33B struct {
	A     uint8  ``
	B     uint32 ``
	ÉCa9Z uint16 ``
	D     int16  `struct:"int16"`
	ÉE_   string `struct-size:"A"`
	F0    int64  `struct:"sizeof=G"`
	G     string ``
	H     string `struct:"sizefrom=F0" struct-if:"(D)!=D\t&&\tF0  >F0"`
	I     *F33B  `struct-if:"A>\t0XB4"`
	Root  *F33A  `struct:"root"`
}

type F34A struct {
	A    uint8  ``
	Root *F34A  `struct:"root"`
	Par1 *F34A  `struct:"parent"`
	Par2 *F34B  `struct:"parent"`
	E    uint8  ``
	F7z  []F34B `struct:"sizefrom=E"`
	G    int64  `struct:"bits=Par2.B\t&  07"`
}

type F34B struct {
	ÉA7z uint8  `struct:"byte"`
	B    uint16 ``
	C    bool   ``
	Root *F34B  `struct:"root"`
	Par1 *F34A  `struct:"parent"`
	Par2 *F34A  `struct:"parent"`
	G    F34C   ``
	H    uint64 `struct-if:"Par1.A&^(ÉA7z )>=3" struct:"uint64"`
}

type F34C struct {
	A_   uint8  ``
	B    bool   ``
	Root *F34A  `struct:"root"`
	D    string `struct-size:"Root.A &(7 )"`
	Par1 *F34B  `struct:"parent"`
}

type F35A struct {
	A    uint8 `struct:"uint8"`
	Root *F35A `struct:"root"`
	Par1 *F35A `struct:"parent"`
	Par2 *F35B `struct:"parent"`
	E    struct {
		A F35B `struct:"case=0x0"`
	} `struct:"switch=Root.A& 1"`
	F struct {
		A int     `struct:"if=Root.A\t== (1)\t&&(\tRoot.A >=0x0||Root.Root.A ==(Root.Root).A)" struct-case:"0x2"`
		B uint8   `struct-case:"3" struct:"uint8:0x01"`
		C float64 `struct-if:"0x7f <( Root).Root.A^Root.A" struct:"case=1,big"`
	} `struct:"switch=Root.A &03"`
	G []uint8 `struct:"size=( A),if=A  /02>=\t0x2"`
	H string  `struct-size:"(Root).A& 7"`
}

type F35B struct {
	A     uint8    ``
	B     int8     ``
	Root  *F35A    `struct:"root"`
	D     int16    ``
	E     int64    `struct:"int64"`
	F     string   `struct:"sizefrom=D,skip=02"`
	ÉGa9Z []uint16 `struct-if:"Root.Par1.A&\tRoot.A < A  >>0X1" struct:"sizefrom=D"`
}

type F36A struct {
	A    uint8  ``
	B    uint16 ``
	Root *F36A  `struct:"root"`
	Par1 *F36B  `struct:"parent"`
	Par2 *F36A  `struct:"parent"`
	F    F36B   ``
	G    uint32 `struct-if:"bits.Reverse8((Root.Root.A)) <=01"`
	H    struct {
		A *F36B `struct-case:"01"`
	} `struct-switch:"Root.B  & 1"`
	I string `struct:"[4]uint8"`
}

type F36B struct {
	A    uint8   ``
	B    uint32  `struct:"uint32"`
	Par  *F36A   `struct:"parent"`
	D9   string  `struct-size:"Par.B\t& 07"`
	Ez   uint64  ``
	ÉFñ0 string  `struct:"sizefrom=Ez" struct-if:"! (D9\t==$'\\''&&Par.B < 0x3e)"`
	G    uint16  `struct:"uint16:15,sizeof=H"`
	H    []uint8 `struct:"little,string"`
}

type F37A struct {
	A    uint8   ``
	Root *F37A   `struct:"root"`
	Par1 *F37A   `struct:"parent"`
	D    [0]F37B `struct:"skip=0x2"`
	E    int64   `struct:"big,int64"`
}

type F37B struct {
	ÉAZ  uint8  ``
	B    uint8  ``
	C    uint16 ``
	Root *F37B  `struct:"root"`
	E    bool   `struct:"int64,skip=0x10,variantbool"`
	Fz   bool   ``
	G_1  *F37A  `struct-if:"( ÉAZ  &0x3==2 )" struct:"skip=0x0"`
	H    uint16 ``
}

type F38A struct {
	AZ   uint8  ``
	B    uint16 ``
	Root *F38A  `struct:"root"`
	Par1 *F38B  `struct:"parent"`
	Par2 *F38B  `struct:"parent"`
	F    *F38B  `struct-if:"!(Root.B <=(3 )\t||\tRoot.AZ ==  AZ\t)"`
	G    uint8  ``
}

type F38B struct {
	A    uint8  ``
	B    uint8  ``
	Root *F38B  `struct:"root"`
	D    int8   `struct-if:"(B)-  53\t>0X0"`
	E    bool   `struct:"invertedbool,uint16,msb"`
	F    *F38B  `struct:"if=A&0X3==2"`
	Gñ0  uint16 `struct-bits:"0XE" struct:"skip=0x2"`
}

type F39A struct {
	Añ0  uint8   ``
	B    uint8   ``
	Root *F39A   `struct:"root"`
	Par1 *F39A   `struct:"parent"`
	E9   int32   ``
	F9   []uint8 `struct:"sizefrom=E9,if=8 >= Root.Añ0&& ( Root.Añ0\t!=\tAñ0 )"`
	G    bool    `struct:"int64,lsb"`
	H    uint8   `struct:"sizeof=I,uint8"`
	I    []F39B  ``
}

type F39B struct {
	A   uint8 ``
	ÉB0 bool  `struct:"lsb,int16"`
	Par *F39A `struct:"parent"`
}

type F40A struct {
	A    uint8   ``
	B    uint16  ``
	Root *F40A   `struct:"root"`
	Par1 *F40A   `struct:"parent"`
	Par2 *F40D   `struct:"parent"`
	F    [0]F40D `struct-if:"!((bits.Reverse8(A) )\t>1|| Root.B< 03)"`
	G    struct {
		A *F40B `struct:"case=0x0"`
		B *F40D `struct:"default"`
	} `struct-switch:"Root.Root.A &01"`
	H  int64 ``
	Iz struct {
		A uint8 ``
		B F40C  ``
	} `struct:"if=0X5C>( Root ).A||  Root.Root.B == Root.B ? Root.B!=0X5  &&  (  B  <=Root.B  ) : ( bits ).Reverse8(Root.A)== 87"`
	J bool `struct:"invertedbool"`
	K struct {
		A    float64 `struct-case:"1"`
		Bñ0  int64   `struct:"if=B  |03\t>=39,default"`
		C    string  `struct:"case=0x2,[4]uint8"`
		uD_1 int     ``
		E    string  `struct:"-"`
	} `struct-switch:"(  Root.B  &0X3)"`
}

type F40B struct {
	A    uint8  ``
	Root *F40A  `struct:"root"`
	Par1 *F40A  `struct:"parent"`
	Par2 *F40A  `struct:"parent"`
	E9   uint16 `struct:"sizeof=F"`
	F    string ``
	GZ   []bool `struct:"if=-(\tbits.Reverse8)(Par2.Par2.A7z)<=  0x5b" struct-size:"Par1.B&\t0XF"`
}

type F40C struct {
	A    uint8  `struct:"uint8"`
	B0   uint16 ``
	Root *F40A  `struct:"root"`
	Par1 *F40A  `struct:"parent"`
	E    uint16 ``
	F    *F40C  `struct-if:"A & 0X3==  2"`
}

type F40D struct {
	A7z  uint8  ``
	BZ   uint16 ``
	Root *F40A  `struct:"root"`
	D9   uint64 `struct-if:"(Root ).Par2.BZ>  0x66 ? BZ<05 &&0107 >= Root.A : !( 3  == Root.A)" struct:"uint64:10"`
	E    uint16 `struct:"bits=D9 &0x3+1"`
	F    *F40B  `struct:"if=A7z >0262"`
}

type F41A struct {
	A    uint8  ``
	B    uint32 ``
	Root *F41A  `struct:"root"`
	Par1 *F41B  `struct:"parent"`
	Par2 *F41A  `struct:"parent"`
	F    int8   ``
	G    int8   ``
	H    uint64 `struct:"sizeof=J"`
	I    uint64 `struct:"sizeof=J"`
	J    string ``
	K_   *F41B  `struct-if:"B/0x2 ==Root.B |\t2"`
}

type F41B struct {
	A    uint8  ``
	B    int8   ``
	Root *F41A  `struct:"root"`
	Par1 *F41A  `struct:"parent"`
	Par2 *F41A  `struct:"parent"`
	F7z  int64  `struct:"int64:0x18"`
	G    string `struct:"sizefrom=F7z" struct-if:"( (\tPar1.B)!=Par1.Par2.B&&Par2.A<= 0X1)&& !\t(((Par2).A\t)==\t0X4)"`
	H    string `struct:"sizefrom=F7z"`
	I    struct {
		A uint8 ``
		B F41C  `struct-if:"A\t!=0"`
	} ``
	J struct {
		A int64   `struct:"case=$'\\\\\\\\',int64:0x6"`
		B bool    `struct:"default,int64,little" struct-if:"(\t(Root.B\t<=0X34 ) ? bits.Reverse8((Par1.Par2.A)) : (\tbits).Reverse8(Root.Par2.A)  )> Par1.Par2.A%(0x3)"`
		C float64 `struct:"lsb" struct-case:"'\\u0003'"`
		D uint64  `struct:"case=03,uint64:0b1001"`
	} `struct:"switch=(Par2.B)& 0X3" struct-if:"(G!=\"\\x61\" ? Root.Par1.B : Root.Par1.B)==\t4"`
}

type F41C struct {
	Aé   uint8   `struct:"uint8"`
	B    uint32  ``
	Ca9Z uint32  `struct:"uint32"`
	Par  *F41A   `struct:"parent"`
	E    []int64 `struct:"size=Par.Par2.B & 31"`
}

type F42A struct {
	ÉA9 uint8   ``
	B   int8    ``
	C   uint8   ``
	Dé  bool    `struct:"invertedbool"`
	E   bool    `struct:"variantbool,invertedbool,uint32"`
	F   [2]F42B `struct:"skip=0x02"`
	G   []F42B  `struct-while:"!  _eof"`
}

type F42B struct {
	A    uint8  ``
	B    uint32 ``
	Root *F42A  `struct:"root"`
	Par1 *F42A  `struct:"parent"`
	E_   int16  `struct-out:"E_\t^( 3^  E_  ) %  03" struct:"if=A+4==115"`
}

type F43A struct {
	A    uint8 ``
	Root *F43A `struct:"root"`
	Par1 *F43A `struct:"parent"`
	D    struct {
		A F43B `struct:"case=1"`
	} `struct:"switch=Root.A&  '\\x01'"`
	E bool `struct:"uint64:62,invertedbool"`
}

type F43B struct {
	A    uint8  ``
	Root *F43A  `struct:"root"`
	C    int64  `struct-bits:"( Root.A& 3)+0X1" struct:"int64"`
	D    uint32 `struct:"uint32:0b1100"`
	E    uint32 `struct-if:"(! !(\tC!=\t'\\x02' )\t)"`
}

type F44A struct {
	Añ0  uint8  ``
	B    uint32 `struct:"uint32"`
	ÉCZ  uint16 ``
	Root *F44A  `struct:"root"`
	Par1 *F44C  `struct:"parent"`
	F    int16  `struct:"sizeof=ÉGé,int16"`
	ÉGé  string ``
	Hñ0  *F44B  `struct:"little"`
}

type F44B struct {
	Az   uint8 ``
	B    uint8 ``
	Root *F44A `struct:"root"`
	Par1 *F44A `struct:"parent"`
	E    struct {
		A uint8 ``
		B F44C  `struct:"if=(A\t!= 0\t)"`
	} ``
	F [][3]uint32 `struct:"size=0x2,[][3]uint32"`
	G []uint16    `struct:"size=Par1.ÉCZ &0X3"`
}

type F44C struct {
	A    uint8 ``
	B    int8  ``
	Root *F44B `struct:"root"`
	Par1 *F44B `struct:"parent"`
	E    int8  `struct:"skip=2"`
}

type F45A struct {
	A_   uint8       ``
	B    *F45B       ``
	C    [][3]uint64 `struct:"size=0x2,if=(A_  )>=0"`
	Root *F45A       `struct:"root"`
}

type F45B struct {
	A   uint8  ``
	B   uint16 ``
	Cñ0 uint8  ``
	Par *F45A  `struct:"parent"`
	E   bool   `struct:"variantbool" struct-if:"Par.A_ &^\tPar.Root.A_==  0x2"`
}

type F46A struct {
	A    uint8  `struct:"uint8"`
	Root *F46A  `struct:"root"`
	Par1 *F46B  `struct:"parent"`
	D    uint16 ``
	E    *F46B  `struct:"skip=0x00"`
	F    []F46B `struct:"while=(!_eof)"`
}

type F46B struct {
	A    uint8  `struct:"uint8"`
	Root *F46A  `struct:"root"`
	C    uint16 `struct:"uint16" struct-in:"C  ^ 0X4" struct-out:"4 ^\tC"`
	D    uint32 `struct:"uint32:0x1b" struct-out:"(D  ^(D)>>(0  ))"`
}

type F47A struct {
	Añ0 uint8 ``
	B   struct {
		A uint8 ``
		B F47B  ``
	} ``
	Par   *F47A    `struct:"parent"`
	D_1   []uint16 `struct:"-"`
	Root1 *F47A    `struct:"root"`
	F     uint32   ``
	Par2  *F47B    `struct:"parent"`
	H     uint8    `struct:"sizeof=I,uint8"`
	I     []F47C   ``
	J     struct {
		A F47C `struct-case:"00"`
	} `struct:"switch=Root1.Root1.Añ0&\t1"`
}

type F47B struct {
	A    uint8  `struct:"uint8"`
	Root *F47A  `struct:"root"`
	Par1 *F47A  `struct:"parent"`
	Par2 *F47A  `struct:"parent"`
	E    string `struct:"skip=0X3" struct-if:"Root.Par2.A>=0X40&&bits.Reverse8(Root.Añ0)  >  A||\tRoot.Par.Añ0==0X3" struct-size:"Par1.Añ0& 0X3"`
	F    string `struct:"size=Root.Root1.Añ0&0X1"`
	G    string `struct-size:"02" struct-if:"(  bits.Reverse8)(Root.Añ0)> 00"`
}

type F47C struct {
	A    uint8  ``
	B0   bool   ``
	Root *F47A  `struct:"root"`
	Par1 *F47A  `struct:"parent"`
	E_1  *F47D  `struct-if:"! (Root.Añ0== 1)"`
	F    *F47B  `struct:"if=A  >'¹'"`
	G    uint32 `struct-bits:"Root.Añ0  &\t0X3  +\t1" struct-if:"(!  (0x3 ==Root.Par2.A) )"`
}

type F47D struct {
	A    uint8  `struct:"uint8"`
	B    uint16 ``
	Root *F47A  `struct:"root"`
	D    uint16 `struct:"sizeof=E"`
	E    string `struct-if:"( A >=  04 ? Root.Añ0  >= 5 : D >= B)&&  ((B <=\t(  3))  || bits.Reverse16(D)> 'u'\t)"`
	F    []bool `struct:"sizefrom=D,if=!\t(Root.Añ0 >Root.Añ0 )&& (\tbits.Reverse8(Root.Añ0) ) ==3"`
	Par1 *F47C  `struct:"parent"`
	H    uint16 ``
	Par2 *F47C  `struct:"parent"`
	J    string `struct:"[]uint8,sizefrom=H"`
}

type F48A struct {
	A    uint8   ``
	B    bool    ``
	C    uint8   ``
	D    []F48C  `struct:"sizefrom=C"`
	E    [2]F48B ``
	F    uint16  `struct-if:"+A<48"`
	Root *F48A   `struct:"root"`
	H    F48C    ``
}

type F48B struct {
	A    uint8     ``
	Root *F48A     `struct:"root"`
	C    [2]F48D   ``
	D    []*uint64 `struct-size:"03"`
	EZ   string    `struct:"[0b11]uint8"`
}

type F48C struct {
	A uint8 ``
	B uint8 ``
	C struct {
		A    int32  `struct-case:"( B)&0x1"`
		B    int64  `struct-if:"A<= 0x3 ? A  >=034 : A> 0x4" struct:"default,lsb,int64"`
		C    uint16 `struct:"case=2,uint16:9"`
		uÉDZ *uint8 ``
	} `struct:"switch=A"`
	D    int16 ``
	Root *F48A `struct:"root"`
	F    *F48B `struct-if:"A\t>\t0266"`
}

type F48D struct {
	A    uint8 ``
	B    uint8 ``
	C    uint8 ``
	Root *F48A `struct:"root"`
	E    bool  `struct:"int64:0x23,invertedbool,skip=0x2"`
}

type F49A struct {
	A    uint8 ``
	Root *F49A `struct:"root"`
	C    struct {
		A float32   `struct-case:"00" struct:"float32"`
		B []float64 `struct-case:"2" struct:"[03]float64"`
	} `struct:"skip=01" struct-switch:"(Root.A &3)"`
	D int64  `struct:"skip=0b10,int64:0b1"`
	E bool   `struct:"rune,variantbool"`
	F uint8  `struct:"byte,sizeof=G"`
	G []F49B `struct:"big"`
}

type F49B struct {
	A    uint8  ``
	B    uint8  ``
	C    uint8  `struct:"uint8"`
	Root *F49A  `struct:"root"`
	Par1 *F49B  `struct:"parent"`
	Par2 *F49B  `struct:"parent"`
	G0   int8   ``
	H    uint64 ``
	I    uint16 `struct-out:"(\tI)^( I\t)"`
}

type F50A struct {
	Añ0 uint8  ``
	B   uint32 `struct:"uint32"`
	C   []struct {
		Añ0 []float32 `struct-size:"'\\x04'" struct:"[]float32"`
		B   bool      `struct:"invertedbool,bool"`
		C   int16     ``
	} `struct-size:"(Añ0&0x7  +\t1)"`
	D uint32 `struct:"uint32:0x18,if=Añ0^  (0x1)<=0X4"`
	E F50B   `struct:"if=^ D <4"`
}

type F50B struct {
	A    uint8     ``
	Root *F50A     `struct:"root"`
	ÉC9  int8      ``
	D    string    `struct:"[]byte,sizefrom=ÉC9"`
	E    int64     `struct:"int64:51"`
	Fñ0  []int32   `struct:"sizefrom=E,if=((  bits.Reverse32)(Root.B))< (\t00 )&&Root.B <= Root.B  || 2!= (A)"`
	G    []float32 `struct:"size=Root.Añ0 &  (  1),skip=3"`
}

type F51A struct {
	A_1 uint8 ``
	B   uint8 ``
	Par *F51A `struct:"parent"`
	D_1 struct {
		A uint8 `struct:"uint8"`
		B F51B  ``
	} `struct:"skip=03"`
	Eñ0 uint64 `struct:"uint64:41,msb,sizeof=G,skip=0x0"`
	F   uint64 `struct:"bits=0X1D"`
	G   []bool ``
}

type F51B struct {
	A     uint8    `struct:"byte"`
	B     uint32   ``
	Par   *F51A    `struct:"parent"`
	D     bool     `struct:"uint8"`
	Root1 *F51A    `struct:"root"`
	F     int64    ``
	Par2  *F51A    `struct:"parent"`
	H     []uint32 `struct:"size=Root1.A_1&3"`
	I     []uint16 `struct:"sizefrom=F,skip=03" struct-if:"Par2.Par.B<<0X0 >0X5"`
}

type F52A struct {
	A    uint8  `struct:"uint8"`
	B    bool   ``
	C    int8   ``
	Root *F52A  `struct:"root"`
	Par1 *F52B  `struct:"parent"`
	ÉFZ  int32  `struct:"int32"`
	G    bool   `struct:"-"`
	H    string `struct-size:"16" struct:"if=bits.Reverse8(((Root).A))<A &&  (\tRoot.A>A\t)"`
	I7z  uint8  `struct:"sizeof=J"`
	J    []F52B ``
}

type F52B struct {
	A    uint8   ``
	B    uint8   ``
	C    uint8   ``
	Dz   int16   `struct-if:"A==  04 &&\t(A >=C )||C  == B"`
	Root *F52A   `struct:"root"`
	F    []int64 `struct:"size=0"`
	Par1 *F52B   `struct:"parent"`
	Par2 *F52A   `struct:"parent"`
}

type F53A struct {
	ÉAa9Z uint8 ``
	B     bool  `struct:"bool"`
	C     struct {
		A uint8 ``
		B F53B  ``
	} ``
	Root *F53A `struct:"root"`
	Par1 *F53B `struct:"parent"`
	F9   int8  `struct-in:"F9  ^(F9|\t0X0  )" struct:"out=F9  ^(F9|  0),if=!  (ÉAa9Z!=  0X4 ) && ( ÉAa9Z != Root.ÉAa9Z|| Root.ÉAa9Z  < Root.ÉAa9Z),lsb"`
	Par2 *F53A `struct:"parent"`
}

type F53B struct {
	A    uint8  ``
	BZ   int8   ``
	C    uint16 ``
	Root *F53A  `struct:"root"`
	Par1 *F53A  `struct:"parent"`
	Par2 *F53A  `struct:"parent"`
	G    int64  `struct:"int64:0x06"`
	H    string `struct:"[0b11]byte"`
	I    uint64 `struct:"if=C-  Par1.Par1.C==\t(\t05  )"`
}

type F54A struct {
	A_1  uint8      ``
	B    bool       ``
	C    uint8      ``
	D    uint16     `struct:"bits=(A_1&\t7  +1)"`
	Eé   uint8      `struct:"uint8:0x1"`
	Par  *F54D      `struct:"parent"`
	G_1  F54B       ``
	Par1 *F54A      `struct:"parent"`
	I    [][3]int64 `struct:"sizefrom=Eé"`
}

type F54B struct {
	ÉA9  uint8  ``
	B    uint8  ``
	ÉCñ0 []F54C `struct:"sizefrom=B"`
	Par  *F54A  `struct:"parent"`
	E    uint8  `struct:"if=(Par.Par1.C==4&&(  Par.C!=\tPar.A_1  &&ÉA9>  Par.C )  )"`
	FZ   bool   `struct:"variantbool,if=((E) ==00 ? (  Par.Par1.A_1< 0x0 ) : (2 == E ))|| Par.A_1  >E,byte:0x4"`
}

type F54C struct {
	A   uint8   ``
	B   uint16  `struct:"uint16"`
	C   []uint8 `struct-size:"00"`
	Par *F54B   `struct:"parent"`
	E   uint8   `struct:"sizeof=F0"`
	F0  []F54D  `struct:"if=B\t!= 01 ? B == B&&Par.ÉA9 > Par.ÉA9 : ( bits.Reverse8 )(Par.ÉA9)< Par.ÉA9"`
}

type F54D struct {
	A    uint8   `struct:"uint8"`
	B    *F54D   `struct:"if=( A )  &0x3==0x2"`
	Par  *F54C   `struct:"parent"`
	D    []uint8 `struct-size:"Par.A  & 1" struct:"[]byte"`
	Par1 *F54C   `struct:"parent"`
}

type F55A struct {
	A    uint8    ``
	Root *F55A    `struct:"root"`
	Par1 *F55D    `struct:"parent"`
	D    int16    `struct:"skip=0x2"`
	E    []uint64 `struct:"size=Root.A&\t0x1"`
	F    [1]F55B  ``
	G_   F55C     ``
}

type F55B struct {
	A    uint8  ``
	B    uint8  ``
	Root *F55A  `struct:"root"`
	D    string `struct:"size=Root.A &'\\x03'"`
	E    string `struct:"-"`
}

type F55C struct {
	A   uint8 ``
	B   uint8 ``
	Par *F55A `struct:"parent"`
	ÉDZ bool  `struct:"bool"`
	E   []struct {
		AZ  bool   `struct:"invertedbool,variantbool"`
		B   uint32 `struct:"uint32:0x02"`
		Cñ0 string `struct-if:"('\\x03'\t)&^(  B )==2" struct:"size=3"`
	} `struct-size:"B&  0X1"`
	F [0]F55D ``
}

type F55D struct {
	A     uint8  ``
	B     int8   ``
	Cé    uint32 ``
	Root  *F55A  `struct:"root"`
	E     int64  `struct:"sizeof=ÉHa9Z"`
	F     string `struct:"-"`
	G     uint32 `struct:"uint32:1"`
	ÉHa9Z string ``
	IZ    string `struct:"sizefrom=E" struct-if:"! ( Root.Root.A>5)"`
}

type F56A struct {
	A     uint8   ``
	B     F56C    `struct-if:"A  >  40&&A <A ? !((  1 )<=A ) : 1<=  A"`
	Par   *F56B   `struct:"parent"`
	Par1  *F56B   `struct:"parent"`
	Root2 *F56D   `struct:"root"`
	F     uint64  `struct:"uint64:39,sizeof=I"`
	G     string  `struct:"[0x00]uint8"`
	H     F56B    `struct:"if=F\t<= bits.Reverse64(F)||( F)  ==2 ||5\t!=F"`
	I     []uint8 ``
}

type F56B struct {
	A     uint8  ``
	Par   *F56A  `struct:"parent"`
	Par1  *F56A  `struct:"parent"`
	D     uint32 `struct:"if=A <= 0x5 ? bits.Reverse8(Par.Root2.A)!= 0X5 : (( Par.Root2.B)  <=\t2 ) ? Par.A<= Par.A : (( Par  ).Root2.B== 0x69)" struct-bits:"Par.Par.A &3"`
	E     uint8  `struct:"sizeof=ÉFa9Z"`
	ÉFa9Z []F56D ``
}

type F56C struct {
	A0   uint8 ``
	B    uint8 `struct:"uint8"`
	C    int8  ``
	Root *F56C `struct:"root"`
	Par1 *F56A `struct:"parent"`
	Par2 *F56A `struct:"parent"`
	G0   int16 `struct-in:"G0+ 0x3a" struct:"out=G0-  0x3a,lsb,int16"`
	H    []struct {
		A string `struct-size:"01"`
		B uint64 `struct-if:"true"`
		C int32  `struct:"if=B\t>=  (  B*\t02)"`
	} `struct-size:"Par1.Par.A &1"`
	Iz bool `struct:"-"`
}

type F56D struct {
	A    uint8    ``
	B    int8     ``
	Root *F56D    `struct:"root"`
	D0   []uint16 `struct:"-"`
	E    *F56C    `struct:"if=((  A  )& 3==\t(3 ) )"`
}

type F57A struct {
	A    uint8       ``
	Root *F57A       `struct:"root"`
	Par1 *F57A       `struct:"parent"`
	ÉDZ  [][3]uint64 `struct-size:"Root.Root.A&(03)"`
	E    F57C        ``
	F    F57B        `struct-if:"A>\t0X30 || A\t==Root.A"`
	G    int8        ``
	H    string      `struct:"[3]uint8"`
	I    []F57D      `struct:"while=!  _eof"`
}

type F57B struct {
	A   uint8 ``
	B   uint8 ``
	C   bool  ``
	Par *F57A `struct:"parent"`
	E   bool  `struct:"-"`
	F   struct {
		AZ bool `struct:"uint64:0b101000,case=3"`
	} `struct-switch:"Par.A"`
	G string `struct:"size=0,if=(  76\t) >\tbits.Reverse8(Par.A)^01"`
}

type F57C struct {
	ÉAé uint8    ``
	B   *F57B    `struct:"if=ÉAé>194"`
	C7z []uint64 `struct:"size=ÉAé &31+'\\u0001'"`
	D   uint8    `struct:"bits=C7z[\t0\t]\t&7 +1"`
	E   F57D     ``
	Par *F57A    `struct:"parent"`
	G   bool     `struct:"invertedbool,uint32"`
}

type F57D struct {
	A    uint8   ``
	B    uint8   ``
	Root *F57A   `struct:"root"`
	Par1 *F57C   `struct:"parent"`
	Par2 *F57C   `struct:"parent"`
	ÉFé  []*int8 `struct:"if=86\t==(  ( Par2.ÉAé<=Par1.ÉAé  ) ? Par1.ÉAé : (Par2.ÉAé)  ),size=Par1.ÉAé  &1"`
}

type F58A struct {
	A uint8 ``
	B struct {
		A F58B `struct-case:"1"`
	} `struct-switch:"A &  '\\x01'"`
	C  *F58A `struct-if:"(A)&0x3 ==  03"`
	D_ struct {
		A  bool   `struct-case:"false" struct:"uint64,invertedbool"`
		uB *uint8 `struct:"*uint8"`
		C  *uint8 `struct:"-"`
	} `struct-switch:"A < 03 ? bits.Reverse8(A)  !=  03 : A\t<=\t114"`
	E struct {
		A *F58B `struct:"case=1"`
	} `struct:"switch=A&\t1"`
	ÉF7z uint64 `struct:"uint64"`
}

type F58B struct {
	A    uint8  ``
	B    uint16 ``
	Root *F58A  `struct:"root"`
	D9   int16  `struct:"out=D9\t^\t(  D9 /  1 ),if=bits.Reverse8(A)>>3> 1"`
	Eé   uint64 `struct:"sizeof=Ga9Z"`
	F    uint64 `struct:"sizeof=Ga9Z"`
	Ga9Z string ``
}

type F59A struct {
	A    uint8   ``
	B    int8    ``
	Root *F59A   `struct:"root"`
	D    []uint8 `struct-size:"B&  0X1"`
	E    []struct {
		A []int `struct:"size=02"`
		B bool  `struct:"variantbool,uint32:7"`
	} `struct-size:"Root.A &( 07)"`
	F [0]F59B ``
}

type F59B struct {
	A    uint8 `struct:"byte"`
	B    uint8 ``
	Root *F59A `struct:"root"`
	Par1 *F59A `struct:"parent"`
	Eñ0  struct {
		A uint8 ``
		B F59C  ``
	} ``
	F uint64 `struct-if:"Root.B&  Root.B ==Root.B  -3" struct-bits:"0x3a"`
	G string `struct:"[0b0]byte"`
}

type F59C struct {
	A7z  uint8  ``
	B    uint16 `struct:"bits='\\u0006',little" struct-if:"A7z/3<5"`
	Root *F59A  `struct:"root"`
}

func init() {
	for _, v := range []any{
		F00A{}, F00B{}, F00C{}, F01A{}, F01B{}, F01C{}, F01D{}, F02A{},
		F02B{}, F02C{}, F02D{}, F03A{}, F03B{}, F03C{}, F04A{}, F04B{},
		F05A{}, F05B{}, F05C{}, F06A{}, F06B{}, F06C{}, F06D{}, F07A{},
		F07B{}, F08A{}, F08B{}, F09A{}, F09B{}, F10A{}, F10B{}, F10C{},
		F11A{}, F11B{}, F11C{}, F12A{}, F12B{}, F12C{}, F13A{}, F13B{},
		F14A{}, F14B{}, F14C{}, F15A{}, F15B{}, F15C{}, F16A{}, F16B{},
		F16C{}, F16D{}, F17A{}, F17B{}, F17C{}, F18A{}, F18B{}, F18C{},
		F18D{}, F19A{}, F19B{}, F20A{}, F20B{}, F20C{}, F20D{}, F21A{},
		F21B{}, F22A{}, F22B{}, F23A{}, F23B{}, F23C{}, F24A{}, F24B{},
		F25A{}, F25B{}, F26A{}, F26B{}, F26C{}, F27A{}, F27B{}, F28A{},
		F28B{}, F29A{}, F29B{}, F30A{}, F30B{}, F31A{}, F31B{}, F32A{},
		F32B{}, F32C{}, F33A{}, F33B{}, F34A{}, F34B{}, F34C{}, F35A{},
		F35B{}, F36A{}, F36B{}, F37A{}, F37B{}, F38A{}, F38B{}, F39A{},
		F39B{}, F40A{}, F40B{}, F40C{}, F40D{}, F41A{}, F41B{}, F41C{},
		F42A{}, F42B{}, F43A{}, F43B{}, F44A{}, F44B{}, F44C{}, F45A{},
		F45B{}, F46A{}, F46B{}, F47A{}, F47B{}, F47C{}, F47D{}, F48A{},
		F48B{}, F48C{}, F48D{}, F49A{}, F49B{}, F50A{}, F50B{}, F51A{},
		F51B{}, F52A{}, F52B{}, F53A{}, F53B{}, F54A{}, F54B{}, F54C{},
		F54D{}, F55A{}, F55B{}, F55C{}, F55D{}, F56A{}, F56B{}, F56C{},
		F56D{}, F57A{}, F57B{}, F57C{}, F57D{}, F58A{}, F58B{}, F59A{},
		F59B{}, F59C{},
	} {
		t := reflect.TypeOf(v)
		goTypes[t.Name()] = t
	}
}
func init() {
	{
		type Twin struct {
			A struct {
				A     string    `struct:"[04]uint8,lsb,case=true"`
				Bz    []bool    `struct:"little,[03]int8" struct-case:"true ? true : false"`
				C     [12]int16 `struct:"default"`
				D     string    `struct-case:"true" struct:"[0X5]uint8"`
				uÉE7z int       ``
				F     bool      `struct:"-"`
			} `struct-switch:"true"`
			B    uint16 `struct:"sizeof=Ea9Z"`
			C    uint32 `struct:"sizeof=D,uint32:0b11000"`
			D    string `struct:"skip=0x00,big"`
			Ea9Z string ``
		}
		goTypes["Twin0"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A uint8 `struct:"uint16:0x2"`
			B uint8 ``
		}
		goTypes["Twin1"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A   bool  `struct:"variantbool,lsb"`
			B   uint8 ``
			C   int32 `struct:"msb"`
			ÉD_ bool  ``
		}
		goTypes["Twin2"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			Aé string `struct:"[3]uint8"`
			B  struct {
				A    [1]int16 `struct:"default"`
				B7z  string   `struct:"[0b11]byte" struct-case:"\"\\141b\""`
				Ca9Z bool     `struct:"uint16,case=\"\\x28\""`
				D    []uint   `struct:"[0x00]uint64" struct-case:"\"\\134\""`
			} `struct-switch:"Aé"`
		}
		goTypes["Twin3"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A   uint16 ``
			ÉB0 uint8  `struct:"uint8:0x03"`
			C_1 int32  ``
		}
		goTypes["Twin4"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
		}
		goTypes["Twin5"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A   uint64 `struct:"sizeof=ÉC0"`
			B   uint32 ``
			ÉC0 string `struct-if:"^A<=5"`
		}
		goTypes["Twin6"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A string `struct:"[3]uint8,skip=2"`
			B bool   `struct:"invertedbool,variantbool"`
		}
		goTypes["Twin7"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A   []uint8 `struct-size:"01"`
			B   int32   `struct:"int16,sizeof=E7z"`
			C9  uint16  `struct:"lsb"`
			D   bool    ``
			E7z string  `struct:"if=B*(  B )==\t114"`
		}
		goTypes["Twin8"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A    int16  ``
			Ba9Z uint16 `struct:"big"`
			C    uint   `struct:"uint8:0b111,network"`
			D    struct {
				A0 [4]uint8 `struct-case:"(3  )"`
				B  [2]uint8 `struct:"default"`
			} `struct-if:"A<A &&Ba9Z<0X3  &&C>C" struct-switch:"C"`
		}
		goTypes["Twin9"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A  [2]int32 ``
			B9 [4]int64 `struct:"[4]int64"`
		}
		goTypes["Twin10"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A  int16 ``
			B  uint8 ``
			Cé bool  `struct:"bool"`
		}
		goTypes["Twin11"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A struct {
				A string `struct:"case=( false\t),[0X5]uint8"`
				B int32  `struct:"case=false"`
			} `struct:"switch=true"`
			B  int32  `struct:"sizeof=C0"`
			C0 string `struct:"if=(\t108>B)  &&(  4  <=B|| B\t<=B )"`
		}
		goTypes["Twin12"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A int64   `struct:"int64:14,lsb"`
			B []bool  `struct:"sizefrom=A"`
			C []uint8 `struct-size:"A&  31" struct:"string"`
		}
		goTypes["Twin13"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A    uint16 `struct:"uint16:0xa"`
			B    int16  `struct:"int64"`
			ÉC_1 int32  ``
			D    int64  `struct:"little"`
		}
		goTypes["Twin14"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			ÉA_1 uint32      `struct:"uint32:037,sizeof=E"`
			B    uint32      `struct:"sizeof=G,uint32:17"`
			Cñ0  []int8      `struct:"size=3,[]int32"`
			D    int8        `struct:"little"`
			E    []uint8     ``
			F    string      `struct:"little,sizefrom=ÉA_1"`
			G    [][1]uint64 `struct:"skip=0"`
		}
		goTypes["Twin15"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A   uint32 `struct:"skip=2"`
			B   uint32 `struct:"uint32:0xc"`
			C_1 struct {
				A *float32   `struct-case:"0X0" struct:"*float64"`
				B int64      `struct:"int64:7" struct-case:"0"`
				C [3]float32 `struct:"default,little,[03]float32" struct-if:"+B==0x4"`
			} `struct-switch:"B  &0x3"`
			ÉD_1 uint32   `struct:"byte"`
			EZ   []uint32 `struct:"sizefrom=B,[]uint8"`
		}
		goTypes["Twin16"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
		}
		goTypes["Twin17"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A9 int32  ``
			B  string `struct:"[0]uint8"`
			C  uint32 `struct:"uint8"`
		}
		goTypes["Twin18"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			_ struct {
				A uint32 `struct:"uint32"`
				B uint8  ``
			} ``
			B struct {
				A [1]int8 `struct:"network,skip=0b10,[1]int64,default"`
			} `struct:"switch=0x2"`
			C_1 int64  `struct:"msb,sizeof=E,int64:0x23"`
			D   bool   `struct:"uint32"`
			E   string `struct:"[]uint8"`
		}
		goTypes["Twin19"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A   int16  ``
			B   int64  `struct:"int64"`
			C   uint32 `struct:"uint32:0x1e"`
			Dñ0 string `struct:"lsb,sizefrom=C"`
		}
		goTypes["Twin20"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
		}
		goTypes["Twin21"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A struct {
				A   string `struct:"default,[4]uint8"`
				ÉBZ *int64 `struct-case:"false"`
				C   int8   `struct:"case=!  false"`
				D   bool   `struct-case:"false" struct:"invertedbool"`
				uE  bool   ``
			} `struct-switch:"false" struct:"little"`
			B bool   `struct:"variantbool"`
			C int16  ``
			D uint32 `struct:"uint16"`
		}
		goTypes["Twin22"] = reflect.TypeOf(Twin{})
	}
	{
		type Twin struct {
			A string  `struct:"size=40"`
			B []uint8 `struct:"size=3"`
			C [1]struct {
				ÉA_1 []float32 `struct:"size=01"`
				_    [1]uint16 ``
				C    uint32    `struct:"skip=26"`
				ÉD0  bool      `struct:"uint64"`
			} ``
			D uint8 `struct:"uint8:5"`
		}
		goTypes["Twin23"] = reflect.TypeOf(Twin{})
	}
}
