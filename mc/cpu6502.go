package main

// cpu is a small NMOS 6502 (documented opcodes, no decimal mode).
type cpu struct {
	mem              [65536]byte
	a, x, y, sp      byte
	c, z, n, v, d, i bool
	pc               uint16
	access           func(addr uint16) // soft switches C080-C0FF
	bad              string
}

func (p *cpu) rd(a uint16) byte {
	if a >= 0xC080 && a < 0xC100 {
		p.access(a)
		return 0
	}
	return p.mem[a]
}

func (p *cpu) wr(a uint16, v byte) {
	if a >= 0xC000 {
		if a >= 0xC080 && a < 0xC100 {
			p.access(a)
		}
		return
	}
	p.mem[a] = v
}

func (p *cpu) push(v byte) { p.mem[0x100+uint16(p.sp)] = v; p.sp-- }
func (p *cpu) pull() byte  { p.sp++; return p.mem[0x100+uint16(p.sp)] }
func (p *cpu) nz(v byte)   { p.n, p.z = v >= 0x80, v == 0 }
func (p *cpu) fetch() byte { v := p.mem[p.pc]; p.pc++; return v }
func (p *cpu) fetch16() uint16 {
	lo := p.fetch()
	return uint16(lo) | uint16(p.fetch())<<8
}

func (p *cpu) rts() {
	lo := p.pull()
	p.pc = (uint16(lo) | uint16(p.pull())<<8) + 1
}

func (p *cpu) zp16(z byte) uint16 { return uint16(p.mem[z]) | uint16(p.mem[z+1])<<8 }

func (p *cpu) flags() byte {
	f := byte(0x30)
	for k, b := range []bool{p.c, p.z, p.i, p.d, false, false, p.v, p.n} {
		if b {
			f |= 1 << k
		}
	}
	return f
}

func (p *cpu) setFlags(f byte) {
	p.c, p.z, p.i, p.d, p.v, p.n = f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0, f&64 != 0, f&128 != 0
}

func (p *cpu) adc(v byte) {
	s := int(p.a) + int(v)
	if p.c {
		s++
	}
	p.v = (p.a^byte(s))&(v^byte(s))&0x80 != 0
	p.c = s > 255
	p.a = byte(s)
	p.nz(p.a)
}

func (p *cpu) cmp(r, v byte) { p.c = r >= v; p.nz(r - v) }

func (p *cpu) branch(take bool) {
	o := int8(p.fetch())
	if take {
		p.pc += uint16(int16(o))
	}
}

// address computes the operand address of group-one style modes.
func (p *cpu) address(mode byte) uint16 {
	switch mode {
	case 0: // (zp,X)
		return p.zp16(p.fetch() + p.x)
	case 1: // zp
		return uint16(p.fetch())
	case 3: // abs
		return p.fetch16()
	case 4: // (zp),Y
		return p.zp16(p.fetch()) + uint16(p.y)
	case 5: // zp,X
		return uint16(p.fetch() + p.x)
	case 6: // abs,Y
		return p.fetch16() + uint16(p.y)
	case 7: // abs,X
		return p.fetch16() + uint16(p.x)
	}
	return 0
}

func (p *cpu) step() {
	at := p.pc
	op := p.fetch()
	switch op {
	case 0x18:
		p.c = false
	case 0x38:
		p.c = true
	case 0x58:
		p.i = false
	case 0x78:
		p.i = true
	case 0xB8:
		p.v = false
	case 0xD8:
		p.d = false
	case 0xEA:
	case 0xAA:
		p.x = p.a
		p.nz(p.x)
	case 0xA8:
		p.y = p.a
		p.nz(p.y)
	case 0x8A:
		p.a = p.x
		p.nz(p.a)
	case 0x98:
		p.a = p.y
		p.nz(p.a)
	case 0xBA:
		p.x = p.sp
		p.nz(p.x)
	case 0x9A:
		p.sp = p.x
	case 0xE8:
		p.x++
		p.nz(p.x)
	case 0xC8:
		p.y++
		p.nz(p.y)
	case 0xCA:
		p.x--
		p.nz(p.x)
	case 0x88:
		p.y--
		p.nz(p.y)
	case 0x48:
		p.push(p.a)
	case 0x68:
		p.a = p.pull()
		p.nz(p.a)
	case 0x08:
		p.push(p.flags())
	case 0x28:
		p.setFlags(p.pull())
	case 0x20:
		t := p.fetch16()
		r := p.pc - 1
		p.push(byte(r >> 8))
		p.push(byte(r))
		p.pc = t
	case 0x60:
		p.rts()
	case 0x4C:
		p.pc = p.fetch16()
	case 0x6C:
		t := p.fetch16()
		p.pc = uint16(p.mem[t]) | uint16(p.mem[t&0xff00|uint16(byte(t)+1)])<<8
	case 0x10:
		p.branch(!p.n)
	case 0x30:
		p.branch(p.n)
	case 0x50:
		p.branch(!p.v)
	case 0x70:
		p.branch(p.v)
	case 0x90:
		p.branch(!p.c)
	case 0xB0:
		p.branch(p.c)
	case 0xD0:
		p.branch(!p.z)
	case 0xF0:
		p.branch(p.z)
	case 0x24, 0x2C:
		v := p.rd(p.address(op >> 2 & 7))
		p.z, p.n, p.v = p.a&v == 0, v&0x80 != 0, v&0x40 != 0
	case 0xA0:
		p.y = p.fetch()
		p.nz(p.y)
	case 0xA4, 0xAC, 0xB4, 0xBC:
		p.y = p.rd(p.address(op >> 2 & 7))
		p.nz(p.y)
	case 0xA2:
		p.x = p.fetch()
		p.nz(p.x)
	case 0xA6, 0xAE:
		p.x = p.rd(p.address(op >> 2 & 7))
		p.nz(p.x)
	case 0xB6:
		p.x = p.rd(uint16(p.fetch() + p.y))
		p.nz(p.x)
	case 0xBE:
		p.x = p.rd(p.fetch16() + uint16(p.y))
		p.nz(p.x)
	case 0x84, 0x8C, 0x94:
		p.wr(p.address(op>>2&7), p.y)
	case 0x86, 0x8E:
		p.wr(p.address(op>>2&7), p.x)
	case 0x96:
		p.wr(uint16(p.fetch()+p.y), p.x)
	case 0xC0:
		p.cmp(p.y, p.fetch())
	case 0xC4, 0xCC:
		p.cmp(p.y, p.rd(p.address(op>>2&7)))
	case 0xE0:
		p.cmp(p.x, p.fetch())
	case 0xE4, 0xEC:
		p.cmp(p.x, p.rd(p.address(op>>2&7)))
	case 0x0A, 0x2A, 0x4A, 0x6A:
		p.a = p.shift(op>>5, p.a)
	case 0x06, 0x0E, 0x16, 0x1E, 0x26, 0x2E, 0x36, 0x3E, 0x46, 0x4E, 0x56, 0x5E, 0x66, 0x6E, 0x76, 0x7E:
		a := p.address(op >> 2 & 7)
		p.wr(a, p.shift(op>>5, p.rd(a)))
	case 0xC6, 0xCE, 0xD6, 0xDE:
		a := p.address(op >> 2 & 7)
		v := p.rd(a) - 1
		p.wr(a, v)
		p.nz(v)
	case 0xE6, 0xEE, 0xF6, 0xFE:
		a := p.address(op >> 2 & 7)
		v := p.rd(a) + 1
		p.wr(a, v)
		p.nz(v)
	default:
		if op&3 != 1 || op == 0x89 {
			p.bad = "executes opcode " + hex2(op) + " at " + hex2(byte(at>>8)) + hex2(byte(at))
			return
		}
		mode := op >> 2 & 7
		if op>>5 == 4 { // STA
			p.wr(p.address(mode), p.a)
			return
		}
		var v byte
		if mode == 2 {
			v = p.fetch()
		} else {
			v = p.rd(p.address(mode))
		}
		switch op >> 5 {
		case 0:
			p.a |= v
			p.nz(p.a)
		case 1:
			p.a &= v
			p.nz(p.a)
		case 2:
			p.a ^= v
			p.nz(p.a)
		case 3:
			p.adc(v)
		case 5:
			p.a = v
			p.nz(p.a)
		case 6:
			p.cmp(p.a, v)
		case 7:
			p.adc(^v)
		}
	}
}

func (p *cpu) shift(kind, v byte) byte {
	c := p.c
	switch kind {
	case 0, 1:
		p.c = v&0x80 != 0
		v <<= 1
		if kind == 1 && c {
			v |= 1
		}
	default:
		p.c = v&1 != 0
		v >>= 1
		if kind == 3 && c {
			v |= 0x80
		}
	}
	p.nz(v)
	return v
}

func hex2(b byte) string {
	const h = "0123456789ABCDEF"
	return string([]byte{h[b>>4], h[b&15]})
}

// boot models the Disk II ROM in slot 6 booting image, which is stored in the
// given order, with a head that moves by its phase magnets. It returns the
// machine when control leaves the loader, or why it did not get there.
func boot(img []byte, order string, fill func(a int) byte) (*cpu, string) {
	p := &cpu{sp: 0xF0, x: 0x60}
	for a := 0x0200; a < 0xC000; a++ {
		p.mem[a] = fill(a)
	}
	head, phase, waited := 0, -1, true
	why := ""
	p.access = func(a uint16) {
		if a < 0xC0E0 || a > 0xC0E7 {
			why = "touched a soft switch that is not a stepper phase of slot 6"
			return
		}
		if a&1 == 0 {
			if phase == int(a&7)>>1 {
				phase = -1
			}
			return
		}
		if !waited {
			why = "stepped the head again without waiting"
			return
		}
		phase = int(a&7) >> 1
		waited = false
	}
	table := oraclePhysToLog[orderOf(order)]
	read := func() bool {
		track, sector := int(p.mem[0x41]), int(p.mem[0x3D])
		if head%2 != 0 || head/2 != track {
			why = "looks for a track the head is not on"
			return false
		}
		if track > 34 || sector > 15 {
			why = "looks for a sector that does not exist"
			return false
		}
		page := int(p.mem[0x27]) << 8
		if p.mem[0x26] != 0 || page >= 0xC000 {
			why = "reads a sector outside of memory"
			return false
		}
		o := track*trackSize + table[sector]*256
		copy(p.mem[page:page+256], img[o:o+256])
		for i := 0; i < 0xAA; i++ { // the ROM's buffers
			p.mem[0x300+i] = 0x33
		}
		p.mem[0x40] = byte(track)
		p.mem[0x3C] = 0xff
		p.mem[0x27]++
		p.mem[0x3D]++
		p.a, p.x, p.y = p.mem[0x3D], p.mem[0x2B], 0
		p.c = p.a >= p.mem[0x800]
		p.nz(p.a - p.mem[0x800])
		return true
	}
	p.mem[0x26], p.mem[0x27], p.mem[0x2B], p.mem[0x3D], p.mem[0x41] = 0, 8, 0x60, 0, 0
	for {
		if !read() {
			return p, why
		}
		if p.c {
			break
		}
	}
	p.pc = 0x801
	for n := 0; n < 200000; n++ {
		switch {
		case p.pc == 0xC65C:
			for {
				if !read() {
					return p, why
				}
				if p.c {
					break
				}
			}
			p.pc = 0x801
		case p.pc == 0xFCA8:
			if p.a >= 0x10 && phase >= 0 {
				switch (phase - head) & 3 {
				case 1:
					head++
				case 3:
					if head > 0 {
						head--
					}
				}
			}
			waited = true
			p.a = 0
			p.c = true
			p.z, p.n = true, false
			p.rts()
		case p.pc>>8 == 8 || p.pc < 0x200:
			p.step()
		default:
			return p, ""
		}
		if p.bad != "" {
			return p, p.bad
		}
		if why != "" {
			return p, why
		}
	}
	return p, "never leaves the loader"
}
