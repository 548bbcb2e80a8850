"""Instruction sets: the encodings dasm has to produce.

One line per mnemonic: name, flags, then mode=opcode (hexadecimal, two byte opcodes
include the prefix).  The lines were written down once and compared by hand with the
manufacturers' opcode maps (see also selftest.py, which checks the regular structure of
these maps); they are not read from the assembler's sources when a check runs.

Flags: IMOD  first operand is a bit number (bit set/clear, bit test and branch)
       MASK  an additional operand byte follows
       REL   an additional relative branch target follows
"""

MODES = ('IMP', 'IMM8', 'IMM16', 'BYTEADR', 'BYTEADRX', 'BYTEADRY', 'WORDADR', 'WORDADRX',
         'WORDADRY', 'REL', 'BYTEREL', 'INDBYTEX', 'INDBYTEY', 'INDWORD', 'INDWORDX',
         'INDBYTE', '0X', '0Y', 'BITMOD', 'BITBRAMOD', 'BYTEADR_SP', 'WORDADR_SP')
AM = {n: i for i, n in enumerate(MODES)}
AM['LONG'] = 24
AM['BSS'] = 25
AM['SWAP'] = 26
SIZE = (0, 1, 2, 1, 1, 1, 2, 2, 2, 2, 1, 1, 1, 2, 2, 1, 0, 0, 1, 1, 1, 2)
WIDER = {'IMM8': 'IMM16', 'BYTEADR': 'WORDADR', 'BYTEADRX': 'WORDADRX', 'BYTEADRY': 'WORDADRY',
         'WORDADR': 'REL', '0X': 'BYTEADRX', '0Y': 'BYTEADRY', 'INDWORDX': 'IMM16'}
CVT = {AM[a]: AM[b] for a, b in WIDER.items()}

TEXT = {
'6502': """
adc - IMM8=69 BYTEADR=65 BYTEADRX=75 WORDADR=6d WORDADRX=7d WORDADRY=79 INDBYTEX=61 INDBYTEY=71
anc - IMM8=b
and - IMM8=29 BYTEADR=25 BYTEADRX=35 WORDADR=2d WORDADRX=3d WORDADRY=39 INDBYTEX=21 INDBYTEY=31
ane - IMM8=8b
arr - IMM8=6b
asl - IMP=a BYTEADR=6 BYTEADRX=16 WORDADR=e WORDADRX=1e
asr - IMM8=4b
bcc - REL=90
bcs - REL=b0
beq - REL=f0
bit - BYTEADR=24 WORDADR=2c
bmi - REL=30
bne - REL=d0
bpl - REL=10
brk - IMP=0
bvc - REL=50
bvs - REL=70
clc - IMP=18
cld - IMP=d8
cli - IMP=58
clv - IMP=b8
cmp - IMM8=c9 BYTEADR=c5 BYTEADRX=d5 WORDADR=cd WORDADRX=dd WORDADRY=d9 INDBYTEX=c1 INDBYTEY=d1
cpx - IMM8=e0 BYTEADR=e4 WORDADR=ec
cpy - IMM8=c0 BYTEADR=c4 WORDADR=cc
dcp - BYTEADR=c7 BYTEADRX=d7 WORDADR=cf WORDADRX=df WORDADRY=db INDBYTEX=c3 INDBYTEY=d3
dec - BYTEADR=c6 BYTEADRX=d6 WORDADR=ce WORDADRX=de
dex - IMP=ca
dey - IMP=88
eor - IMM8=49 BYTEADR=45 BYTEADRX=55 WORDADR=4d WORDADRX=5d WORDADRY=59 INDBYTEX=41 INDBYTEY=51
inc - BYTEADR=e6 BYTEADRX=f6 WORDADR=ee WORDADRX=fe
inx - IMP=e8
iny - IMP=c8
isb - BYTEADR=e7 BYTEADRX=f7 WORDADR=ef WORDADRX=ff WORDADRY=fb INDBYTEX=e3 INDBYTEY=f3
jmp - WORDADR=4c INDWORD=6c
jsr - WORDADR=20
las - WORDADRY=bb
lax - BYTEADR=a7 BYTEADRY=b7 WORDADR=af WORDADRY=bf INDBYTEX=a3 INDBYTEY=b3
lda - IMM8=a9 BYTEADR=a5 BYTEADRX=b5 WORDADR=ad WORDADRX=bd WORDADRY=b9 INDBYTEX=a1 INDBYTEY=b1
ldx - IMM8=a2 BYTEADR=a6 BYTEADRY=b6 WORDADR=ae WORDADRY=be
ldy - IMM8=a0 BYTEADR=a4 BYTEADRX=b4 WORDADR=ac WORDADRX=bc
lsr - IMP=4a BYTEADR=46 BYTEADRX=56 WORDADR=4e WORDADRX=5e
lxa - IMM8=ab
nop - IMP=ea IMM8=80 BYTEADR=4 BYTEADRX=14 WORDADR=c WORDADRX=1c
ora - IMM8=9 BYTEADR=5 BYTEADRX=15 WORDADR=d WORDADRX=1d WORDADRY=19 INDBYTEX=1 INDBYTEY=11
pha - IMP=48
php - IMP=8
pla - IMP=68
plp - IMP=28
rla - BYTEADR=27 BYTEADRX=37 WORDADR=2f WORDADRX=3f WORDADRY=3b INDBYTEX=23 INDBYTEY=33
rol - IMP=2a BYTEADR=26 BYTEADRX=36 WORDADR=2e WORDADRX=3e
ror - IMP=6a BYTEADR=66 BYTEADRX=76 WORDADR=6e WORDADRX=7e
rra - BYTEADR=67 BYTEADRX=77 WORDADR=6f WORDADRX=7f WORDADRY=7b INDBYTEX=63 INDBYTEY=73
rti - IMP=40
rts - IMP=60
sax - BYTEADR=87 BYTEADRY=97 WORDADR=8f INDBYTEX=83
sbc - IMM8=e9 BYTEADR=e5 BYTEADRX=f5 WORDADR=ed WORDADRX=fd WORDADRY=f9 INDBYTEX=e1 INDBYTEY=f1
sbx - IMM8=cb
sec - IMP=38
sed - IMP=f8
sei - IMP=78
sha - WORDADRY=9f INDBYTEY=93
shs - WORDADRY=9b
shx - WORDADRY=9e
shy - WORDADRX=9c
slo - BYTEADR=7 BYTEADRX=17 WORDADR=f WORDADRX=1f WORDADRY=1b INDBYTEX=3 INDBYTEY=13
sre - BYTEADR=47 BYTEADRX=57 WORDADR=4f WORDADRX=5f WORDADRY=5b INDBYTEX=43 INDBYTEY=53
sta - BYTEADR=85 BYTEADRX=95 WORDADR=8d WORDADRX=9d WORDADRY=99 INDBYTEX=81 INDBYTEY=91
stx - BYTEADR=86 BYTEADRY=96 WORDADR=8e
sty - BYTEADR=84 BYTEADRX=94 WORDADR=8c
tax - IMP=aa
tay - IMP=a8
tsx - IMP=ba
txa - IMP=8a
txs - IMP=9a
tya - IMP=98
""",
'65c02': """
adc - IMM8=69 BYTEADR=65 BYTEADRX=75 WORDADR=6d WORDADRX=7d WORDADRY=79 INDBYTEX=61 INDBYTEY=71 INDBYTE=72
and - IMM8=29 BYTEADR=25 BYTEADRX=35 WORDADR=2d WORDADRX=3d WORDADRY=39 INDBYTEX=21 INDBYTEY=31 INDBYTE=32
asl - IMP=a BYTEADR=6 BYTEADRX=16 WORDADR=e WORDADRX=1e
bbr0 - BYTEREL=f
bbr1 - BYTEREL=1f
bbr2 - BYTEREL=2f
bbr3 - BYTEREL=3f
bbr4 - BYTEREL=4f
bbr5 - BYTEREL=5f
bbr6 - BYTEREL=6f
bbr7 - BYTEREL=7f
bbs0 - BYTEREL=8f
bbs1 - BYTEREL=9f
bbs2 - BYTEREL=af
bbs3 - BYTEREL=bf
bbs4 - BYTEREL=cf
bbs5 - BYTEREL=df
bbs6 - BYTEREL=ef
bbs7 - BYTEREL=ff
bcc - REL=90
bcs - REL=b0
beq - REL=f0
bit - IMM8=89 BYTEADR=24 BYTEADRX=34 WORDADR=2c WORDADRX=3c
bmi - REL=30
bne - REL=d0
bpl - REL=10
bra - REL=80
brk - IMP=0
bvc - REL=50
bvs - REL=70
clc - IMP=18
cld - IMP=d8
cli - IMP=58
clv - IMP=b8
cmp - IMM8=c9 BYTEADR=c5 BYTEADRX=d5 WORDADR=cd WORDADRX=dd WORDADRY=d9 INDBYTEX=c1 INDBYTEY=d1 INDBYTE=d2
cpx - IMM8=e0 BYTEADR=e4 WORDADR=ec
cpy - IMM8=c0 BYTEADR=c4 WORDADR=cc
dec - BYTEADR=c6 BYTEADRX=d6 WORDADR=ce WORDADRX=de
dea - IMP=3a
dex - IMP=ca
dey - IMP=88
eor - IMM8=49 BYTEADR=45 BYTEADRX=55 WORDADR=4d WORDADRX=5d WORDADRY=59 INDBYTEX=41 INDBYTEY=51 INDBYTE=52
ina - IMP=1a
inc - BYTEADR=e6 BYTEADRX=f6 WORDADR=ee WORDADRX=fe
inx - IMP=e8
iny - IMP=c8
jmp - WORDADR=4c INDWORD=6c INDWORDX=7c
jsr - WORDADR=20
lda - IMM8=a9 BYTEADR=a5 BYTEADRX=b5 WORDADR=ad WORDADRX=bd WORDADRY=b9 INDBYTEX=a1 INDBYTEY=b1 INDBYTE=b2
ldx - IMM8=a2 BYTEADR=a6 BYTEADRY=b6 WORDADR=ae WORDADRY=be
ldy - IMM8=a0 BYTEADR=a4 BYTEADRX=b4 WORDADR=ac WORDADRX=bc
lsr - IMP=4a BYTEADR=46 BYTEADRX=56 WORDADR=4e WORDADRX=5e
nop - IMP=ea IMM8=80 BYTEADR=4 BYTEADRX=14 WORDADR=c WORDADRX=1c
ora - IMM8=9 BYTEADR=5 BYTEADRX=15 WORDADR=d WORDADRX=1d WORDADRY=19 INDBYTEX=1 INDBYTEY=11 INDBYTE=12
pha - IMP=48
phx - IMP=da
phy - IMP=5a
php - IMP=8
pla - IMP=68
plp - IMP=28
plx - IMP=fa
ply - IMP=7a
rmb0 - BYTEADR=7
rmb1 - BYTEADR=17
rmb2 - BYTEADR=27
rmb3 - BYTEADR=37
rmb4 - BYTEADR=47
rmb5 - BYTEADR=57
rmb6 - BYTEADR=67
rmb7 - BYTEADR=77
rol - IMP=2a BYTEADR=26 BYTEADRX=36 WORDADR=2e WORDADRX=3e
ror - IMP=6a BYTEADR=66 BYTEADRX=76 WORDADR=6e WORDADRX=7e
rti - IMP=40
rts - IMP=60
sbc - IMM8=e9 BYTEADR=e5 BYTEADRX=f5 WORDADR=ed WORDADRX=fd WORDADRY=f9 INDBYTEX=e1 INDBYTEY=f1 INDBYTE=f2
sec - IMP=38
sed - IMP=f8
sei - IMP=78
smb0 - BYTEADR=87
smb1 - BYTEADR=97
smb2 - BYTEADR=a7
smb3 - BYTEADR=b7
smb4 - BYTEADR=c7
smb5 - BYTEADR=d7
smb6 - BYTEADR=e7
smb7 - BYTEADR=f7
sta - BYTEADR=85 BYTEADRX=95 WORDADR=8d WORDADRX=9d WORDADRY=99 INDBYTEX=81 INDBYTEY=91 INDBYTE=92
stx - BYTEADR=86 BYTEADRY=96 WORDADR=8e
stp - IMP=db
sty - BYTEADR=84 BYTEADRX=94 WORDADR=8c
stz - BYTEADR=64 BYTEADRX=74 WORDADR=9c WORDADRX=9e
tax - IMP=aa
tay - IMP=a8
trb - BYTEADR=14 WORDADR=1c
tsb - BYTEADR=4 WORDADR=c
tsx - IMP=ba
txa - IMP=8a
txs - IMP=9a
tya - IMP=98
wai - IMP=cb
""",
'6803': """
aba - IMP=1b
abx - IMP=3a
adca - IMM8=89 BYTEADR=99 BYTEADRX=a9 WORDADR=b9
adcb - IMM8=c9 BYTEADR=d9 BYTEADRX=e9 WORDADR=f9
adda - IMM8=8b BYTEADR=9b BYTEADRX=ab WORDADR=bb
addb - IMM8=cb BYTEADR=db BYTEADRX=eb WORDADR=fb
addd - IMM16=c3 BYTEADR=d3 BYTEADRX=e3 WORDADR=f3
anda - IMM8=84 BYTEADR=94 BYTEADRX=a4 WORDADR=b4
andb - IMM8=c4 BYTEADR=d4 BYTEADRX=e4 WORDADR=f4
bita - IMM8=85 BYTEADR=95 BYTEADRX=a5 WORDADR=b5
bitb - IMM8=c5 BYTEADR=d5 BYTEADRX=e5 WORDADR=f5
bra - REL=20
brn - REL=21
bcc - REL=24
bhs - REL=24
bcs - REL=25
blo - REL=25
beq - REL=27
bge - REL=2c
bgt - REL=2e
bhi - REL=22
ble - REL=2f
bls - REL=23
blt - REL=2d
bmi - REL=2b
bne - REL=26
bvc - REL=28
bvs - REL=29
bpl - REL=2a
bsr - REL=8d
clc - IMP=c
cli - IMP=e
clv - IMP=a
sec - IMP=d
sei - IMP=f
sev - IMP=b
tap - IMP=6
tpa - IMP=7
clr - BYTEADRX=6f WORDADR=7f
clra - IMP=4f
clrb - IMP=5f
cmpa - IMM8=81 BYTEADR=91 BYTEADRX=a1 WORDADR=b1
cmpb - IMM8=c1 BYTEADR=d1 BYTEADRX=e1 WORDADR=f1
cba - IMP=11
com - BYTEADRX=63 WORDADR=73
coma - IMP=43
comb - IMP=53
neg - BYTEADRX=60 WORDADR=70
nega - IMP=40
negb - IMP=50
daa - IMP=19
dec - BYTEADRX=6a WORDADR=7a
deca - IMP=4a
decb - IMP=5a
eora - IMM8=88 BYTEADR=98 BYTEADRX=a8 WORDADR=b8
eorb - IMM8=c8 BYTEADR=d8 BYTEADRX=e8 WORDADR=f8
inc - BYTEADRX=6c WORDADR=7c
inca - IMP=4c
incb - IMP=5c
jmp - BYTEADRX=6e WORDADR=7e
jsr - BYTEADR=9d BYTEADRX=ad WORDADR=bd
ldaa - IMM8=86 BYTEADR=96 BYTEADRX=a6 WORDADR=b6
ldab - IMM8=c6 BYTEADR=d6 BYTEADRX=e6 WORDADR=f6
ldd - IMM16=cc BYTEADR=dc BYTEADRX=ec WORDADR=fc
mul - IMP=3d
nop - IMP=1
oraa - IMM8=8a BYTEADR=9a BYTEADRX=aa WORDADR=ba
orab - IMM8=ca BYTEADR=da BYTEADRX=ea WORDADR=fa
psha - IMP=36
pshb - IMP=37
pshx - IMP=3c
pulx - IMP=38
pula - IMP=32
pulb - IMP=33
rol - BYTEADRX=69 WORDADR=79
rola - IMP=49
rolb - IMP=59
ror - BYTEADRX=66 WORDADR=76
rora - IMP=46
rorb - IMP=56
rti - IMP=3b
rts - IMP=39
swi - IMP=3f
wai - IMP=3e
asl - BYTEADRX=68 WORDADR=78
lsl - BYTEADRX=68 WORDADR=78
asla - IMP=48
aslb - IMP=58
asld - IMP=5
lsla - IMP=48
lslb - IMP=58
lsld - IMP=5
asr - BYTEADRX=67 WORDADR=77
asra - IMP=47
asrb - IMP=57
cpx - IMM16=8c BYTEADR=9c BYTEADRX=ac WORDADR=bc
dex - IMP=9
des - IMP=34
inx - IMP=8
ins - IMP=31
ldx - IMM16=ce BYTEADR=de BYTEADRX=ee WORDADR=fe
lds - IMM16=8e BYTEADR=9e BYTEADRX=ae WORDADR=be
lsr - BYTEADRX=64 WORDADR=74
lsra - IMP=44
lsrb - IMP=54
lsrd - IMP=4
staa - BYTEADR=97 BYTEADRX=a7 WORDADR=b7
stab - BYTEADR=d7 BYTEADRX=e7 WORDADR=f7
std - BYTEADR=dd BYTEADRX=ed WORDADR=fd
sts - BYTEADR=9f BYTEADRX=af WORDADR=bf
stx - BYTEADR=df BYTEADRX=ef WORDADR=ff
suba - IMM8=80 BYTEADR=90 BYTEADRX=a0 WORDADR=b0
subb - IMM8=c0 BYTEADR=d0 BYTEADRX=e0 WORDADR=f0
subd - IMM16=83 BYTEADR=93 BYTEADRX=a3 WORDADR=b3
sba - IMP=10
sbca - IMM8=82 BYTEADR=92 BYTEADRX=a2 WORDADR=b2
sbcb - IMM8=c2 BYTEADR=d2 BYTEADRX=e2 WORDADR=f2
tab - IMP=16
tba - IMP=17
tst - BYTEADRX=6d WORDADR=7d
tsta - IMP=4d
tstb - IMP=5d
tsx - IMP=30
txs - IMP=35
""",
'6303x': """
slp - IMP=1a
xgdx - IMP=18
aim - BYTEADR=71 BYTEADRX=61
oim - BYTEADR=72 BYTEADRX=62
eim - BYTEADR=75 BYTEADRX=65
tim - BYTEADR=7b BYTEADRX=6b
""",
'68705': """
adc - IMM8=a9 BYTEADR=b9 BYTEADRX=e9 WORDADR=c9 WORDADRX=d9 0X=f9
add - IMM8=ab BYTEADR=bb BYTEADRX=eb WORDADR=cb WORDADRX=db 0X=fb
and - IMM8=a4 BYTEADR=b4 BYTEADRX=e4 WORDADR=c4 WORDADRX=d4 0X=f4
asl - IMP=48 BYTEADR=38 BYTEADRX=68 0X=78
asla - IMP=48
aslx - IMP=58
asr - IMP=47 BYTEADR=37 BYTEADRX=67 0X=77
asra - IMP=47
asrx - IMP=57
bcc - REL=24
bclr IMOD BITMOD=11
bcs - REL=25
beq - REL=27
bhcc - REL=28
bhcs - REL=29
bhi - REL=22
bhs - REL=24
bih - REL=2f
bil - REL=2e
bit - IMM8=a5 BYTEADR=b5 BYTEADRX=e5 WORDADR=c5 WORDADRX=d5 0X=f5
blo - REL=25
bls - REL=23
bmc - REL=2c
bmi - REL=2b
bms - REL=2d
bne - REL=26
bpl - REL=2a
bra - REL=20
brn - REL=21
brclr IMOD+REL BITBRAMOD=1
brset IMOD+REL BITBRAMOD=0
bset IMOD BITMOD=10
bsr - REL=ad
clc - IMP=98
cli - IMP=9a
clr - IMP=4f BYTEADR=3f BYTEADRX=6f 0X=7f
clra - IMP=4f
clrx - IMP=5f
cmp - IMM8=a1 BYTEADR=b1 BYTEADRX=e1 WORDADR=c1 WORDADRX=d1 0X=f1
com - IMP=43 BYTEADR=33 BYTEADRX=63 0X=73
coma - IMP=43
comx - IMP=53
cpx - IMM8=a3 BYTEADR=b3 BYTEADRX=e3 WORDADR=c3 WORDADRX=d3 0X=f3
dec - IMP=4a BYTEADR=3a BYTEADRX=6a 0X=7a
deca - IMP=4a
decx - IMP=5a
dex - IMP=5a
eor - IMM8=a8 BYTEADR=b8 BYTEADRX=e8 WORDADR=c8 WORDADRX=d8 0X=f8
inc - IMP=4c BYTEADR=3c BYTEADRX=6c 0X=7c
inca - IMP=4c
incx - IMP=5c
inx - IMP=5c
jmp - BYTEADR=bc BYTEADRX=ec WORDADR=cc WORDADRX=dc 0X=fc
jsr - BYTEADR=bd BYTEADRX=ed WORDADR=cd WORDADRX=dd 0X=fd
lda - IMM8=a6 BYTEADR=b6 BYTEADRX=e6 WORDADR=c6 WORDADRX=d6 0X=f6
ldx - IMM8=ae BYTEADR=be BYTEADRX=ee WORDADR=ce WORDADRX=de 0X=fe
lsl - IMP=48 BYTEADR=38 BYTEADRX=68 0X=78
lsla - IMP=48
lslx - IMP=58
lsr - IMP=44 BYTEADR=34 BYTEADRX=64 0X=74
lsra - IMP=44
lsrx - IMP=54
neg - IMP=40 BYTEADR=30 BYTEADRX=60 0X=70
nega - IMP=40
negx - IMP=50
nop - IMP=9d
ora - IMM8=aa BYTEADR=ba BYTEADRX=ea WORDADR=ca WORDADRX=da 0X=fa
rol - IMP=49 BYTEADR=39 BYTEADRX=69 0X=79
rola - IMP=49
rolx - IMP=59
ror - IMP=46 BYTEADR=36 BYTEADRX=66 0X=76
rora - IMP=46
rorx - IMP=56
rsp - IMP=9c
rti - IMP=80
rts - IMP=81
sbc - IMM8=a2 BYTEADR=b2 BYTEADRX=e2 WORDADR=c2 WORDADRX=d2 0X=f2
sec - IMP=99
sei - IMP=9b
sta - BYTEADR=b7 BYTEADRX=e7 WORDADR=c7 WORDADRX=d7 0X=f7
stx - BYTEADR=bf BYTEADRX=ef WORDADR=cf WORDADRX=df 0X=ff
sub - IMM8=a0 BYTEADR=b0 BYTEADRX=e0 WORDADR=c0 WORDADRX=d0 0X=f0
swi - IMP=83
tax - IMP=97
tst - IMP=4d BYTEADR=3d BYTEADRX=6d 0X=7d
tsta - IMP=4d
tstx - IMP=5d
txa - IMP=9f
""",
'6811': """
aba - IMP=1b
abx - IMP=3a
aby - IMP=183a
adca - IMM8=89 BYTEADR=99 BYTEADRX=a9 BYTEADRY=18a9 WORDADR=b9
adcb - IMM8=c9 BYTEADR=d9 BYTEADRX=e9 BYTEADRY=18e9 WORDADR=f9
adda - IMM8=8b BYTEADR=9b BYTEADRX=ab BYTEADRY=18ab WORDADR=bb
addb - IMM8=cb BYTEADR=db BYTEADRX=eb BYTEADRY=18eb WORDADR=fb
addd - IMM16=c3 BYTEADR=d3 BYTEADRX=e3 BYTEADRY=18e3 WORDADR=f3
anda - IMM8=84 BYTEADR=94 BYTEADRX=a4 BYTEADRY=18a4 WORDADR=b4
andb - IMM8=c4 BYTEADR=d4 BYTEADRX=e4 BYTEADRY=18e4 WORDADR=f4
asla - IMP=48
aslb - IMP=58
asl - BYTEADRX=68 BYTEADRY=1868 WORDADR=78
asld - IMP=5
asra - IMP=47
asrb - IMP=57
asr - BYTEADRX=67 BYTEADRY=1867 WORDADR=77
bcc - REL=24
bclr MASK BYTEADR=15 BYTEADRX=1d BYTEADRY=181d
bcs - REL=25
beq - REL=27
bge - REL=2c
bgt - REL=2e
bhi - REL=22
bhs - REL=24
bita - IMM8=85 BYTEADR=95 BYTEADRX=a5 BYTEADRY=18a5 WORDADR=b5
bitb - IMM8=c5 BYTEADR=d5 BYTEADRX=e5 BYTEADRY=18e5 WORDADR=f5
ble - REL=2f
blo - REL=25
bls - REL=23
blt - REL=2d
bmi - REL=2b
bne - REL=26
bpl - REL=2a
bra - REL=20
brclr MASK+REL BYTEADR=13 BYTEADRX=1f BYTEADRY=181f
brn - REL=21
brset MASK+REL BYTEADR=12 BYTEADRX=1e BYTEADRY=181e
bset MASK BYTEADR=14 BYTEADRX=1c BYTEADRY=181c
bsr - REL=8d
bvc - REL=28
bvs - REL=29
cba - IMP=11
clc - IMP=c
cli - IMP=e
clra - IMP=4f
clrb - IMP=5f
clr - BYTEADRX=6f BYTEADRY=186f WORDADR=7f
clv - IMP=a
cmpa - IMM8=81 BYTEADR=91 BYTEADRX=a1 BYTEADRY=18a1 WORDADR=b1
cmpb - IMM8=c1 BYTEADR=d1 BYTEADRX=e1 BYTEADRY=18e1 WORDADR=f1
coma - IMP=43
comb - IMP=53
com - BYTEADRX=63 BYTEADRY=1863 WORDADR=73
cpd - IMM16=1a83 BYTEADR=1a93 BYTEADRX=1aa3 BYTEADRY=cda3 WORDADR=1ab3
cpx - IMM16=8c BYTEADR=9c BYTEADRX=ac BYTEADRY=cdac WORDADR=bc
cpy - IMM16=188c BYTEADR=189c BYTEADRX=1aac BYTEADRY=18ac WORDADR=18bc
daa - IMP=19
deca - IMP=4a
decb - IMP=5a
dec - BYTEADRX=6a BYTEADRY=186a WORDADR=7a
des - IMP=34
dex - IMP=9
dey - IMP=1809
eora - IMM8=88 BYTEADR=98 BYTEADRX=a8 BYTEADRY=18a8 WORDADR=b8
eorb - IMM8=c8 BYTEADR=d8 BYTEADRX=e8 BYTEADRY=18e8 WORDADR=f8
fdiv - IMP=3
idiv - IMP=2
inca - IMP=4c
incb - IMP=5c
inc - BYTEADRX=6c BYTEADRY=186c WORDADR=7c
ins - IMP=31
inx - IMP=8
iny - IMP=1808
jmp - BYTEADRX=6e BYTEADRY=186e WORDADR=7e
jsr - BYTEADR=9d BYTEADRX=ad BYTEADRY=18ad WORDADR=bd
ldaa - IMM8=86 BYTEADR=96 BYTEADRX=a6 BYTEADRY=18a6 WORDADR=b6
ldab - IMM8=c6 BYTEADR=d6 BYTEADRX=e6 BYTEADRY=18e6 WORDADR=f6
ldd - IMM16=cc BYTEADR=dc BYTEADRX=ec BYTEADRY=18ec WORDADR=fc
lds - IMM16=8e BYTEADR=9e BYTEADRX=ae BYTEADRY=18ae WORDADR=be
ldx - IMM16=ce BYTEADR=de BYTEADRX=ee BYTEADRY=cdee WORDADR=fe
ldy - IMM16=18ce BYTEADR=18de BYTEADRX=1aee BYTEADRY=18ee WORDADR=18fe
lsla - IMP=48
lslb - IMP=58
lsl - BYTEADRX=68 BYTEADRY=1868 WORDADR=78
lsld - IMP=5
lsra - IMP=44
lsrb - IMP=54
lsr - BYTEADRX=64 BYTEADRY=1864 WORDADR=74
lsrd - IMP=4
mul - IMP=3d
nega - IMP=40
negb - IMP=50
neg - BYTEADRX=60 BYTEADRY=1860 WORDADR=70
nop - IMP=1
oraa - IMM8=8a BYTEADR=9a BYTEADRX=aa BYTEADRY=18aa WORDADR=ba
orab - IMM8=ca BYTEADR=da BYTEADRX=ea BYTEADRY=18ea WORDADR=fa
psha - IMP=36
pshb - IMP=37
pshx - IMP=3c
pshy - IMP=183c
pula - IMP=32
pulb - IMP=33
pulx - IMP=38
puly - IMP=1838
rola - IMP=49
rolb - IMP=59
rol - BYTEADRX=69 BYTEADRY=1869 WORDADR=79
rora - IMP=46
rorb - IMP=56
ror - BYTEADRX=66 BYTEADRY=1866 WORDADR=76
rti - IMP=3b
rts - IMP=39
sba - IMP=10
sbca - IMM8=82 BYTEADR=92 BYTEADRX=a2 BYTEADRY=18a2 WORDADR=b2
sbcb - IMM8=c2 BYTEADR=d2 BYTEADRX=e2 BYTEADRY=18e2 WORDADR=f2
sec - IMP=d
sei - IMP=f
sev - IMP=b
staa - BYTEADR=97 BYTEADRX=a7 BYTEADRY=18a7 WORDADR=b7
stab - BYTEADR=d7 BYTEADRX=e7 BYTEADRY=18e7 WORDADR=f7
std - BYTEADR=dd BYTEADRX=ed BYTEADRY=18ed WORDADR=fd
stop - IMP=cf
sts - BYTEADR=9f BYTEADRX=af BYTEADRY=18af WORDADR=bf
stx - BYTEADR=df BYTEADRX=ef BYTEADRY=cdef WORDADR=ff
sty - BYTEADR=18df BYTEADRX=1aef BYTEADRY=18ef WORDADR=18ff
suba - IMM8=80 BYTEADR=90 BYTEADRX=a0 BYTEADRY=18a0 WORDADR=b0
subb - IMM8=c0 BYTEADR=d0 BYTEADRX=e0 BYTEADRY=18e0 WORDADR=f0
subd - IMM16=83 BYTEADR=93 BYTEADRX=a3 BYTEADRY=18a3 WORDADR=b3
swi - IMP=3f
tab - IMP=16
tap - IMP=6
tba - IMP=17
test - IMP=0
tpa - IMP=7
tsta - IMP=4d
tstb - IMP=5d
tst - BYTEADRX=6d BYTEADRY=186d WORDADR=7d
tsx - IMP=30
tsy - IMP=1830
txs - IMP=35
tys - IMP=1835
wai - IMP=3e
xgdx - IMP=8f
xgdy - IMP=188f
""",
'68908': """
adc - IMM8=a9 BYTEADR=b9 BYTEADRX=e9 WORDADR=c9 WORDADRX=d9 0X=f9 BYTEADR_SP=9ee9 WORDADR_SP=9ed9
add - IMM8=ab BYTEADR=bb BYTEADRX=eb WORDADR=cb WORDADRX=db 0X=fb BYTEADR_SP=9eeb WORDADR_SP=9edb
ais - IMM8=a7
aix - IMM8=af
and - IMM8=a4 BYTEADR=b4 BYTEADRX=e4 WORDADR=c4 WORDADRX=d4 0X=f4 BYTEADR_SP=9ee4 WORDADR_SP=9ed4
asl - BYTEADR=38 BYTEADRX=68 0X=78 BYTEADR_SP=9e68
asla - IMP=48
aslx - IMP=58
asr - BYTEADR=37 BYTEADRX=67 0X=77 BYTEADR_SP=9e67
asra - IMP=47
asrx - IMP=57
bcc - REL=24
bclr IMOD BITMOD=11
bcs - REL=25
beq - REL=27
bge - REL=90
bgt - REL=92
bhcc - REL=28
bhcs - REL=29
bhi - REL=22
bhs - REL=24
bih - REL=2f
bil - REL=2e
bit - IMM8=a5 BYTEADR=b5 BYTEADRX=e5 WORDADR=c5 WORDADRX=d5 0X=f5 BYTEADR_SP=9ee5 WORDADR_SP=9ed5
ble - REL=93
blo - REL=25
bls - REL=23
blt - REL=91
bmc - REL=2c
bmi - REL=2b
bms - REL=2d
bne - REL=26
bpl - REL=2a
bra - REL=20
brclr IMOD+REL BITBRAMOD=1
brn - REL=21
brset IMOD+REL BITBRAMOD=0
bset IMOD BITMOD=10
bsr - REL=ad
cbeqa MASK REL=41
cbeq REL BYTEADR=31 INDBYTEX=61 0X=71 BYTEADR_SP=9e61
cbeqx MASK REL=51
clc - IMP=98
cli - IMP=9a
clr - BYTEADR=3f BYTEADRX=6f 0X=7f BYTEADR_SP=9e6f
clra - IMP=4f
clrh - IMP=8c
clrx - IMP=5f
cmp - IMM8=a1 BYTEADR=b1 BYTEADRX=e1 WORDADR=c1 WORDADRX=d1 0X=f1 BYTEADR_SP=9ee1 WORDADR_SP=9ed1
com - BYTEADR=33 BYTEADRX=63 0X=73 BYTEADR_SP=9e63
coma - IMP=43
comx - IMP=53
cphx - IMM16=65 BYTEADR=75
cpx - IMM8=a3 BYTEADR=b3 BYTEADRX=e3 WORDADR=c3 WORDADRX=d3 0X=f3 BYTEADR_SP=9ee3 WORDADR_SP=9ed3
daa - IMP=72
dbnz REL BYTEADR=3b BYTEADRX=6b 0X=7b BYTEADR_SP=9e6b
dbnza - REL=4b
dbnzx - REL=5b
dec - BYTEADR=3a BYTEADRX=6a 0X=7a BYTEADR_SP=9e6a
deca - IMP=4a
decx - IMP=5a
div - IMP=52
eor - IMM8=a8 BYTEADR=b8 BYTEADRX=e8 WORDADR=c8 WORDADRX=d8 0X=f8 BYTEADR_SP=9ee8 WORDADR_SP=9ed8
inc - BYTEADR=3c BYTEADRX=6c 0X=7c BYTEADR_SP=9e6c
inca - IMP=4c
incx - IMP=5c
jmp - BYTEADR=bc BYTEADRX=ec WORDADR=cc WORDADRX=dc 0X=fc
jsr - BYTEADR=bd BYTEADRX=ed WORDADR=cd WORDADRX=dd 0X=fd
lda - IMM8=a6 BYTEADR=b6 BYTEADRX=e6 WORDADR=c6 WORDADRX=d6 0X=f6 BYTEADR_SP=9ee6 WORDADR_SP=9ed6
ldhx - IMM16=45 BYTEADR=55
ldx - IMM8=ae BYTEADR=be BYTEADRX=ee WORDADR=ce WORDADRX=de 0X=fe BYTEADR_SP=9eee WORDADR_SP=9ede
lsl - BYTEADR=38 BYTEADRX=68 0X=78 BYTEADR_SP=9e68
lsla - IMP=48
lslx - IMP=58
lsr - BYTEADR=34 BYTEADRX=64 0X=74 BYTEADR_SP=9e64
lsra - IMP=44
lsrx - IMP=54
mov MASK IMM8=6e BYTEADR=4e
movp - BYTEADRX=5e
xmov - BYTEADR=7e
mul - IMP=42
neg - BYTEADR=30 BYTEADRX=60 0X=70 BYTEADR_SP=9e60
nega - IMP=40
negx - IMP=50
nsa - IMP=62
nop - IMP=9d
ora - IMM8=aa BYTEADR=ba BYTEADRX=ea WORDADR=ca WORDADRX=da 0X=fa BYTEADR_SP=9eea WORDADR_SP=9eda
psha - IMP=87
pshh - IMP=8b
pshx - IMP=89
pula - IMP=86
pulh - IMP=8a
pulx - IMP=88
rol - BYTEADR=39 BYTEADRX=69 0X=79 BYTEADR_SP=9e69
rola - IMP=49
rolx - IMP=59
ror - BYTEADR=36 BYTEADRX=66 0X=76 BYTEADR_SP=9e66
rora - IMP=46
rorx - IMP=56
rsp - IMP=9c
rti - IMP=80
rts - IMP=81
sbc - IMM8=a2 BYTEADR=b2 BYTEADRX=e2 WORDADR=c2 WORDADRX=d2 0X=f2 BYTEADR_SP=9ee2 WORDADR_SP=9ed2
sec - IMP=99
sei - IMP=9b
sta - BYTEADR=b7 BYTEADRX=e7 WORDADR=c7 WORDADRX=d7 0X=f7 BYTEADR_SP=9ee7 WORDADR_SP=9ed7
sthx - BYTEADR=35
stop - IMP=8e
stx - BYTEADR=bf BYTEADRX=ef WORDADR=cf WORDADRX=df 0X=ff BYTEADR_SP=9eef WORDADR_SP=9edf
sub - IMM8=a0 BYTEADR=b0 BYTEADRX=e0 WORDADR=c0 WORDADRX=d0 0X=f0 BYTEADR_SP=9ee0 WORDADR_SP=9ed0
swi - IMP=83
tap - IMP=84
tax - IMP=97
thxs - IMP=94
tpa - IMP=85
tshx - IMP=95
tst - BYTEADR=3d BYTEADRX=6d 0X=7d BYTEADR_SP=9e6d
tsta - IMP=4d
tstx - IMP=5d
txa - IMP=9f
wait - IMP=8f
""",
}

F8_IMP = dict(adc=0x8e, am=0x88, amd=0x89, clr=0x70, cm=0x8d, com=0x18, di=0x1a, ei=0x1b,
              inc=0x1f, lm=0x16, lnk=0x19, nm=0x8a, nop=0x2b, om=0x8b, pk=0x0c, pop=0x1c,
              st=0x17, xdc=0x2c, xm=0x8c)
F8_BYTE = dict(ai=0x24, ci=0x25, li=0x20, ni=0x21, oi=0x22, out=0x27, xi=0x23)
F8_BYTE['in'] = 0x26
F8_WORD = dict(dci=0x2a, jmp=0x29, pi=0x28)
F8_SREG = {'as': 0xc0, 'asd': 0xd0, 'ds': 0x30, 'ns': 0xf0, 'xs': 0xe0}
F8_PORT = dict(ins=0xa0, outs=0xb0)
F8_BRANCH = dict(bc=0x82, bm=0x91, bnc=0x92, bno=0x98, bnz=0x94, bp=0x81, br=0x90, br7=0x8f, bz=0x84)
F8_SREGNAME = {'s': 12, '(is)': 12, 'i': 13, '(is)+': 13, 'd': 14, '(is)-': 14, 'j': 9, 'hu': 10, 'hl': 11}
F8_REGNAME = {'a': 'a', 'dc0': 'dc0', 'dc': 'dc0', 'h': 'h', 'is': 'is', 'k': 'k', 'ku': 'ku', 'kl': 'kl',
              'pc0': 'pc0', 'p0': 'pc0', 'pc1': 'pc1', 'p': 'pc1', 'q': 'q', 'qu': 'qu', 'ql': 'ql', 'w': 'w'}
F8_LR = {('a', 'is'): 0x0a, ('a', 'kl'): 0x01, ('a', 'ku'): 0x00, ('a', 'ql'): 0x03, ('a', 'qu'): 0x02,
         ('dc0', 'h'): 0x10, ('dc0', 'q'): 0x0f, ('h', 'dc0'): 0x11, ('is', 'a'): 0x0b, ('k', 'pc1'): 0x08,
         ('kl', 'a'): 0x05, ('ku', 'a'): 0x04, ('pc0', 'q'): 0x0d, ('pc1', 'k'): 0x09, ('q', 'dc0'): 0x0e,
         ('ql', 'a'): 0x07, ('qu', 'a'): 0x06, ('w', 9): 0x1d, (9, 'w'): 0x1e}
for _r in range(15):
    F8_LR[('a', _r)] = 0x40 | _r
    F8_LR[(_r, 'a')] = 0x50 | _r


class Ins:
    __slots__ = ('name', 'imod', 'mask', 'rel', 'ops')

    def __init__(self, name, flags, ops):
        self.name = name
        self.imod = 'IMOD' in flags
        self.mask = 'MASK' in flags
        self.rel = 'REL' in flags
        self.ops = ops


def _load(text):
    d = {}
    for line in text.split('\n'):
        p = line.split()
        if p:
            ops = {}
            for x in p[2:]:
                m, _, o = x.partition('=')
                ops[AM[m]] = int(o, 16)
            d[p[0]] = Ins(p[0], p[1].split('+'), ops)
    return d


TABLE = {k: _load(v) for k, v in TEXT.items()}
TABLE['6303'] = dict(TABLE['6803'])
TABLE['6303'].update(TABLE.pop('6303x'))
TABLE['f8'] = {n: Ins(n, [], {0: o}) for n, o in F8_IMP.items()}

# spellings accepted by PROCESSOR -> table
PROCESSOR = {'6502': '6502', '65c02': '65c02', '65C02': '65c02', '6803': '6803', 'HD6303': '6303',
             'hd6303': '6303', '68705': '68705', '68HC11': '6811', '68hc11': '6811', 'F8': 'f8', 'f8': 'f8',
             '68908': '68908', '68hc908': '68908'}
LSBFIRST = ('6502', '65c02')
