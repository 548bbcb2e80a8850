"""Planted bugs: text edits against /repo with a demonstration each (see plant.py)."""

SEEDS = []


def seed(id, prop, edits, needs, what, asm=None, expect=None, args='-f3', run=None):
    """expect: hex of the output file, or 'fail'; run: shell lines instead (use $D, $DASM, $FTOHEX; end with the test)."""
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, asm=asm, expect=expect, args=args, run=run))


def demo(s):
    t = '#!/bin/bash\n# %s\nDASM=$PWD/_build/tree/bin/dasm\nFTOHEX=$PWD/_build/tree/bin/ftohex\n' % s['what'].replace('\n', ' ')
    t += 'D=$(mktemp -d) || exit 99\ntrap \'rm -rf "$D"\' EXIT\ncd "$D" || exit 99\nulimit -t 20 -f 100000\n'
    if s['asm'] is not None:
        t += "cat > a.asm <<'EOF'\n%sEOF\n" % s['asm']
    if s['run']:
        return t + s['run'].rstrip('\n') + '\n'
    t += '"$DASM" a.asm %s -oo > log 2>&1\nrc=$?\n' % s['args']
    if s['expect'] == 'fail':
        return t + '[ $rc -ne 0 ]\n'
    return t + '[ $rc -eq 0 ] && [ "$(od -An -v -tx1 o | tr -d \' \\n\')" = "%s" ]\n' % s['expect'].replace(' ', '')


seed('P01-shift-precedence', 'P01',
     [('src/exp.c', 'doop((opfunc_t)op_shiftright, 18);', 'doop((opfunc_t)op_shiftright, 19);')],
     'a >> whose right operand is followed by + or -',
     'right shift binds as tightly as + and -, so 64>>1+1 becomes (64>>1)+1',
     ' processor 6502\n org 0\n dc.b 64>>1+1, 64<<1+1&255, 3+64>>2\n', '100010')

seed('P04-back-limit', 'P04',
     [('src/ops.c', 'if (dest >= 128 || dest < -128)', 'if (dest >= 128 || dest <= -130)')],
     'a backward branch exactly one byte too far',
     'a backward branch of 129 bytes is accepted and encoded as a forward branch',
     ' processor 6502\n org $1000\n ds 127\n bne $1000\n', 'fail')

seed('P02-hl-case', 'P02',
     [('src/mnef8.c', 'if (!strcasecmp("hl", str)) {', 'if (!strcmp("hl", str)) {')],
     'F8 source naming the scratchpad register HL in upper or mixed case',
     'the register name HL is only accepted in lower case',
     ' processor f8\n org 0\n as HL\n lr a,Hl\n', 'cb4b')

seed('P03-forced-byte-y', 'P03',
     [('src/ops.c', '    	case AM_BYTEADRX:\n    	case AM_BYTEADRY:\n    	case AM_BYTEADR_SP:\n    		byteRequested = true;', '    	case AM_BYTEADRX:\n    	case AM_BYTEADR_SP:\n    		byteRequested = true;')],
     'a forced zero page,y form (.zy) of an instruction that also has an absolute,y form with an address above $ff',
     'a forced byte width is ignored and the operand widened',
     ' processor 65c02\n org 0\n ldx.zy $123,y\n', 'fail')

# --- P01

seed('P01-msb-negative', 'P01',
     [('src/exp.c', 'stackarg((v1 >> 8) & 0xFF, f1, NULL);', 'stackarg((v1 / 256) & 0xFF, f1, NULL);')],
     'the unary > operator applied to a negative value',
     '> rounds towards zero, so >-1 is 0 instead of $ff',
     ' processor 6502\n org 0\n dc.b >-1,>-256,>-257,>$1234\n', 'auto')

seed('P01-andand-value', 'P01',
     [('src/exp.c', '    stackarg(1L, f1|f2, NULL);', '    stackarg(v2, f1|f2, NULL);')],
     'a && whose right operand is neither 0 nor 1',
     '&& yields its right operand instead of 1',
     ' processor 6502\n org 0\n dc.b 3&&2,1&&1,[5&&4]+1\n', 'auto')

seed('P01-mod-zero', 'P01',
     [('src/exp.c', '    if (v2 == 0)\n        stackarg(v1, 0, NULL);', '    if (v2 == 0)\n        stackarg(0L, 0, NULL);')],
     'a modulo whose right operand is 0',
     'a % 0 gives 0 instead of a',
     ' processor 6502\n org 0\n dc.b 7%0,7%4\n', 'auto')

# --- P02

seed('P02-f8-lr-w', 'P02',
     [('src/mnef8.c', 'else if ( (9 == reg_dst) && (REG_W == reg_src) ) {', 'else if ( (9 <= reg_dst) && (REG_W == reg_src) ) {')],
     'F8 lr with source W and a scratchpad register other than J',
     'lr 10,w and lr hu,w are accepted and assembled as lr j,w',
     ' processor f8\n org 0\n lr hu,w\n', 'fail')

# --- P03

seed('P03-negative-byte', 'P03',
     [('src/ops.c', 'if ((value < -0xFF)||(value > 0xFF))', 'if ((value < -0xFFFF)||(value > 0xFF))')],
     'byte data with a value below -255',
     'dc.b -300 is truncated instead of rejected',
     ' processor 6502\n org 0\n dc.b -300\n', 'fail')

# --- P04

seed('P04-f8-forward', 'P04',
     [('src/mnef8.c', 'if (disp > 127 || disp < -128)', 'if (disp > 128 || disp < -128)')],
     'an F8 branch exactly one byte too far forward',
     'an F8 branch with displacement 128 is assembled as -128',
     ' processor f8\n org 0\n br t\n res 127\nt nop\n', 'fail')

seed('P04-rorg-unknown', 'P04',
     [('src/ops.c', 'pc = (Csegment->flags & SF_RORG) ? Csegment->rorg : Csegment->org;\n            pcf=', 'pc = (Csegment->flags & SF_RORG && Csegment->rorg) ? Csegment->rorg : Csegment->org;\n            pcf=')],
     'a branch as the very first instruction of a block relocated to address 0',
     'the branch distance is measured from the unrelocated address',
     ' processor 6502\n org $10\n rorg 0\n bne 8\n rend\n', 'auto')

# --- P05

seed('P05-checksum-leak', 'P05',
     [('src/main.c', '    CheckSum = 0;\n', '    if (pass == 1)\n        CheckSum = 0;\n')],
     'the checksum symbol in a source needing more than one pass, with data before the first forward reference',
     'the checksum of the previous pass is added to that of the last',
     ' processor 6502\n org 0\n dc.b 1,2\n dc.b ...\n dc.b f\nf dc.b 2\n', 'auto')

# --- P06

seed('P06-later-operand', 'P06',
     [('src/ops.c', '    for (sym = symbase; sym; sym = sym->next)\n    {\n        if (sym->flags & SYM_UNKNOWN)\n        {\n            ++Redo;\n            Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;',
       '    for (sym = symbase; sym; sym = sym->next)\n    {\n        if ((sym->flags & SYM_UNKNOWN) && (sym == symbase || !(mne->flags & MF_MASK)))\n        {\n            ++Redo;\n            Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;')],
     'an undefined symbol as the mask of a 68HC11 bset',
     'an undefined mask operand is emitted as 0',
     ' processor 68hc11\n org 0\n bset 5,#nowhere\n', 'fail')

seed('P06-equ-string', 'P06',
     [('src/ops.c', '    if (sym->flags) {\n        ++Redo;\n        Redo_why |= REASON_IF_NOT_RESOLVED;', '    if (sym->flags && !sym->next) {\n        ++Redo;\n        Redo_why |= REASON_IF_NOT_RESOLVED;')],
     'an IF whose undefined condition is followed by a comma',
     'an undefined condition with another operand after it counts as false',
     ' processor 6502\n org 0\n if nowhere,1\n dc.b 1\n else\n dc.b 2\n endif\n', 'fail')

# --- P07

seed('P07-align-rorg', 'P07',
     [('src/ops.c', 'long n = sym->value - (Csegment->rorg % sym->value);', 'long n = sym->value - (Csegment->org % sym->value);')],
     'ALIGN in a relocated block whose two addresses differ modulo the alignment',
     'ALIGN under RORG aligns the unrelocated address',
     ' processor 6502\n org 1\n rorg 2\n dc.b 1\n align 4,$aa\n dc.b 2\n rend\n', 'auto')

seed('P07-bss-rorg', 'P07',
     [('src/ops.c', '    if (Csegment->flags & SF_RORG)\n        Csegment->rorg += Glen;', '    if ((Csegment->flags & (SF_RORG|SF_BSS)) == SF_RORG)\n        Csegment->rorg += Glen;')],
     'RORG inside an uninitialised segment',
     'the relocated address does not advance in an uninitialised segment',
     ' processor 6502\n seg.u v\n org 0\n rorg $80\na ds 3\nb ds 1\n seg c\n org 0\n dc.b a,b\n', 'auto')

seed('P07-rend-label', 'P07',
     [('src/ops.c', '    programlabel();\n    Csegment->flags &= ~SF_RORG;', '    Csegment->flags &= ~SF_RORG;\n    programlabel();')],
     'a label on a REND line',
     'a label on a REND line gets the unrelocated address',
     ' processor 6502\n org 0\n rorg $80\n dc.b 1\na rend\n dc.b a\n', 'auto')

# --- P08

seed('P08-hunk-length', 'P08',
     [('src/ops.c', '                    putc((Seglen & 0xFF), FI_temp);\n                    putc(((Seglen >> 8) & 0xFF), FI_temp);\n                    fseek(FI_temp, seekpos, 0);', '                    putc((Seglen & 0xFF), FI_temp);\n                    putc(((Seglen >> 8) & 0x7F), FI_temp);\n                    fseek(FI_temp, seekpos, 0);')],
     'format 2 with a hunk of at least 32768 bytes that is not the last',
     'bit 15 of the length of such a hunk is lost',
     ' processor 6502\n org 0\n ds 33000\n org $9000\n dc.b 1\n', args='-f2',
     run='"$DASM" a.asm -f2 -oo > log 2>&1\n[ $? -eq 0 ] && [ "$(od -An -v -tx1 -j2 -N2 o | tr -d " \\n")" = "e880" ]')

seed('P08-fill-count', 'P08',
     [('src/ops.c', '                while (Csegment->org != org)\n                {\n                    putc(OrgFill, FI_temp);\n                    ++org;', '                while ((Csegment->org & 0xFFFF) != (org & 0xFFFF))\n                {\n                    putc(OrgFill, FI_temp);\n                    ++org;')],
     'a gap of at least 64 kB between two origins in formats 1 and 3',
     'a gap of 64 kB or more is 64 kB too short',
     ' processor 6502\n org 0\n dc.b 1\n org $10004\n dc.b 2\n',
     run='"$DASM" a.asm -f3 -oo > log 2>&1\n[ $? -eq 0 ] && [ "$(stat -c %s o)" = "65541" ]')

# --- P09

seed('P09-long-string', 'P09',
     [('src/ops.c', '                case AM_LONG:\n                    if (MsbOrder) {\n                        Gen[Glen++] = (value >> 24)& 0xFF;\n                        Gen[Glen++] = (value >> 16)& 0xFF;', '                case AM_LONG:\n                    if (MsbOrder) {\n                        Gen[Glen++] = (value >> 16)& 0xFF;\n                        Gen[Glen++] = (value >> 24)& 0xFF;')],
     'DV.L of a string on a big-endian processor with an expression giving more than 16 bits',
     'the upper two bytes of each element are swapped',
     ' processor 68705\n org 0\nm eqm ..*$10000\n dv.l m "ab"\n', 'auto')

seed('P09-ds-word-fill', 'P09',
     [('src/ops.c', '            {\n                Gen[i+0] = c0;\n                Gen[i+1] = c1;\n            }', '            {\n                Gen[i+0] = c0;\n                Gen[i+1] = c0;\n            }')],
     'DS.W with a fill value whose bytes differ, on a little-endian processor',
     'both bytes of the fill word are its low byte',
     ' processor 6502\n org 0\n ds.w 2,$1234\n', 'auto')

seed('P09-dv-flags', 'P09',
     [('src/ops.c', "    if ( (mne->name[0] == 'd') && (mne->name[1] != 'c') && (mne->name[1] != 'v')) {", "    if ( (mne->name[0] == 'd') && (mne->name[1] != 'c') && (mne->name[1] != 'v') && Mnext < 0) {")],
     'the F8 data words db, dw or dd written with an extension',
     'dw.b emits bytes, the size of the word itself is lost',
     ' processor f8\n org 0\n dw.b 1\n db.w 2\n', 'auto')

# --- P10

seed('P10-else-base', 'P10',
     [('src/ops.c', '        if (ifs->file != pIncfile) {\n            puts("too many endif\'s");\n        }\n        else\n        {', '        {')],
     'an included file or macro with one ENDIF too many',
     'an ENDIF in a macro closes the IF of the caller',
     ' processor 6502\n org 0\n mac m\n endif\n endm\n if 1\n m\n else\n dc.b 1\n endif\n dc.b 2\n', 'auto')

# --- P11

seed('P11-count-16', 'P11',
     [('src/ops.c', '    rp->count = sym->value;', '    rp->count = (short)sym->value;')],
     'a repeat count above 32767',
     'the count is cut to 16 bits',
     ' processor 6502\n org 0\n repeat 65538\n dc.b 1\n repend\n dc.b 2\n',
     run='"$DASM" a.asm -f3 -oo > log 2>&1\n[ $? -eq 0 ] && [ "$(stat -c %s o)" = "65539" ]')

seed('P11-skipped-repeat', 'P11',
     [('src/ops.c', 'void v_repeat(char *str, MNEMONIC *dummy)\n{\n    REPLOOP *rp;\n    SYMBOL *sym;\n\n    if (!Ifstack->xtrue || !Ifstack->acctrue) {\n        pushif(0);\n        return;', 'void v_repeat(char *str, MNEMONIC *dummy)\n{\n    REPLOOP *rp;\n    SYMBOL *sym;\n\n    if (!Ifstack->xtrue || !Ifstack->acctrue) {\n        if (!Ifstack->acctrue)\n            pushif(0);\n        return;')],
     'a REPEAT inside a REPEAT 0 block or a false IF',
     'the inner REPEND ends the skipped outer block',
     ' processor 6502\n org 0\n repeat 0\n repeat 2\n dc.b 1\n repend\n dc.b 2\n repend\n dc.b 3\n', '03')

# --- P12

seed('P12-two-digits', 'P12',
     [('src/main.c', '            arg = atoi(str+1);', "            arg = str[1] - '0';")],
     'a macro with ten or more arguments',
     '{10} is taken for {1}',
     ' processor 6502\n org 0\n mac m\n dc.b {10},{2}\n endm\n m 1,2,3,4,5,6,7,8,9,77\n', '4d02')

seed('P12-empty-argument', 'P12',
     [('src/ops.c', "        if (*str == ',')\n            ++str;\n        while (*str == ' ')", "        while (*str == ',')\n            ++str;\n        while (*str == ' ')")],
     'a macro call with an empty argument in the middle',
     'empty arguments are dropped, so later ones move forward',
     ' processor 6502\n org 0\n mac m\n dc.b {1},{3}\n endm\n m 1,,3\n', '0103')

# --- P13

seed('P13-dollar-after-macro', 'P13',
     [('src/ops.c', '        Localdollarindex = inc->savedolidx;', '        if (Mlevel)\n            Localdollarindex = inc->savedolidx;')],
     'a $ label referred to across a macro call',
     'the $ label scope of the caller does not continue after a macro call',
     ' processor 6502\n org 0\n mac m\n nop\n endm\na nop\n1$ nop\n m\n bne 1$\n', 'auto')

seed('P13-dot-ends-dollar', 'P13',
     [('src/symbols.c', "if (str[0] != '.' && str[len-1] != '$')", "if (str[len-1] != '$')")],
     'a dot label between a $ label and its use',
     'a dot label ends the scope of $ labels',
     ' processor 6502\n org 0\na nop\n1$ nop\n.b nop\n bne 1$\n', 'auto')

seed('P13-nested-macro', 'P13',
     [('src/ops.c', '    inc->saveidx = Localindex;', '    inc->saveidx = (Mlevel > 1) ? Lastlocalindex : Localindex;')],
     'a dot label of a macro used after a second nested macro call in it',
     'after the second call of a macro inside a macro the outer expansion has another local scope',
     ' processor 6502\n org 0\n mac i\n.x nop\n endm\n mac o\n.x nop\n i\n i\n bne .x\n endm\n o\n', 'auto')

# --- P14

seed('P14-d-negative', 'P14',
     [('src/main.c', "                while (*str && *str != '=')\n                    ++str;\n                if (*str == '=')", "                while (*str && *str != '=')\n                    ++str;\n                if (*str == '=' && str[1] != '-')")],
     'a -D or -M option with a negative value',
     '-Dx=-5 defines x as 0',
     ' processor 6502\n org 0\n dc.b x\n', 'fb', '-f3 -Dx=-5')

# --- P15

seed('P15-incdir-prefix', 'P15',
     [('src/ops.c', '        if (strcmp((*tail)->buf, buf) == 0)\n            found = 1;', '        if (strncmp((*tail)->buf, buf, strlen(buf)) == 0)\n            found = 1;')],
     'an include directory whose name is the beginning of an earlier one',
     'the second directory is not searched',
     ' processor 6502\n org 0\n incbin "f"\n',
     run='mkdir inc2 inc\nprintf x > inc/f\n"$DASM" a.asm -f3 -oo -Iinc2 -Iinc > log 2>&1\n[ $? -eq 0 ] && [ "$(cat o)" = x ]')

# --- P16

seed('P16-tab-char', 'P16',
     [('src/main.c', "    while (buf[i] == ' ')\n        ++i;\n    if (buf[i] == '^') {\n        ++i;\n        while (buf[i] == ' ')\n            ++i;", "    while (buf[i] == ' ')\n        ++i;\n    if (buf[i] == '^') {\n        ++i;\n        if (buf[i] == ' ')\n            ++i;")],
     'a ^ followed by two or more blanks before the label',
     'the label after ^ is taken for an instruction if it is more than one blank away',
     ' processor 6502\n org 0\n ^  nop nop\n dc.b nop\n', 'auto')

seed('P16-mnemonic-z', 'P16',
     [('src/main.c', "        if (c >= 'A' && c <= 'Z')\n            c += 'a' - 'A';\n        buf[i] = c;", "        if (c >= 'A' && c < 'Z')\n            c += 'a' - 'A';\n        buf[i] = c;")],
     'a mnemonic or macro name containing Z, in upper case',
     'a name with Z in it is not found when it is written in upper case',
     ' processor 6502\n org 0\n mac zip\n dc.b 1\n endm\n ZIP\n', '01')

# --- P17

seed('P17-verbose-passes', 'P17',
     [('src/main.c', '                F_verbose = atoi(str);\n', '                F_verbose = atoi(str);\n                if (F_verbose > 3)\n                    bDoAllPasses = true;\n'),
      ('src/main.c', '            case \'v\':   /*  F_verbose   */\n', '            case \'v\':   /*  F_verbose, 4 also shows every pass   */\n')],
     'verbosity 4 on a source that cannot be resolved',
     '-v4 changes the exit status from 3 to 4',
     ' processor 6502\n org 0\n dc.b nowhere\n',
     run='"$DASM" a.asm -f3 -oo -v4 > log 2>&1\n[ $? -eq 3 ]')

# --- P18

seed('P18-address-order', 'P18',
     [('src/main.c', "static int CompareAddress( const void *arg1, const void *arg2 )\n{\n    /* Simple numeric ordering comparison function for quicksort */\n", "static int CompareAddress( const void *arg1, const void *arg2 )\n{\n    /* Simple numeric ordering comparison function for quicksort */\n    if (((*(SYMBOL * const *) arg1)->flags ^ (*(SYMBOL * const *) arg2)->flags) & SYM_MASREF)\n        return ((*(SYMBOL * const *) arg1)->flags & SYM_MASREF) ? -1 : 1;\n"),
      ('src/main.c', '             qsort( symArray, nPtr, sizeof( SYMBOL * ), CompareAddress );           /* Sort via address */', '             qsort( symArray, nPtr, sizeof( SYMBOL * ), CompareAddress );           /* Sort via address, used ones first */')],
     'a symbol file sorted by value with an unused symbol below a used one',
     'used symbols come before unused ones whatever their value',
     ' processor 6502\n org 0\na = 1\nb = 2\n dc.b b\n',
     run='"$DASM" a.asm -f3 -oo -T1 -ss > log 2>&1\n[ $? -eq 0 ] && [ "$(cut -c1-1 s | tr -d "\\n-")" = "ab" ]')

seed('P18-string-marker', 'P18',
     [('src/main.c', '             if ( symArray[ i ]->flags & SYM_STRING )', '             if ( (symArray[ i ]->flags & SYM_STRING) && symArray[ i ]->string[0] )')],
     'a symbol assigned an empty string',
     'the empty string is not shown',
     ' processor 6502\n org 0\na = ""\n',
     run='"$DASM" a.asm -f3 -oo -ss > log 2>&1\n[ $? -eq 0 ] && grep -q \'^a .* ""$\' s')

# --- P19

seed('P19-more-mark', 'P19',
     [('src/main.c', '    if (i < Glen && i == 4)', '    if (i + 1 < Glen && i == 4)')],
     'a line emitting exactly five bytes',
     'the mark for more bytes than shown is missing on a line with five bytes',
     ' processor 6502\n org 0\n dc.b 1,2,3,4,5\n',
     run='"$DASM" a.asm -f3 -oo -ll > log 2>&1\n[ $? -eq 0 ] && grep -q "01 02 03 04\\*" l')

seed('P19-localon', 'P19',
     [('src/ops.c', 'else if (strncmp(str, "localon", 7) == 0 || strncmp(str, "LOCALON", 7) == 0)\n        pIncfile->flags &= ~INF_NOLIST;', 'else if (strncmp(str, "localon", 7) == 0 || strncmp(str, "LOCALON", 7) == 0)\n        pIncfile->flags = 0;')],
     'LIST LOCALON inside a macro',
     'LIST LOCALON in a macro ends the macro as such',
     ' processor 6502\n org 0\n mac m\n dc.b 1\n list localon\n dc.b 2\n endm\n m\n dc.b 3\n', 'auto')

# --- P20

seed('P20-echo-passes', 'P20',
     [('src/main.c', '            passbuffer_clear(ERRORBUF);\n            passbuffer_clear(MSGBUF);\n', '            passbuffer_clear(ERRORBUF);\n            if (Redo_if == 0)\n                passbuffer_clear(MSGBUF);\n')],
     'ECHO in a source with an IF on a forward reference',
     'ECHO output of the earlier pass is repeated',
     ' processor 6502\n org 0\n echo "x"\n if f\n dc.b 1\n endif\nf = 1\n',
     run='"$DASM" a.asm -f3 -oo > log 2>&1\n[ $? -eq 0 ] && [ "$(grep -c x log)" = 1 ]')

seed('P20-mismatch-status', 'P20',
     [('src/main.c', '        if (sErrorDef[err].bFatal)\n            bStopAtEnd = true;', '        if (sErrorDef[err].bFatal && pIncfile && !(pIncfile->flags & INF_NOLIST))\n            bStopAtEnd = true;')],
     'an error in a part of the source for which LIST LOCALOFF is in effect',
     'the error is neither reported nor a failure',
     ' processor 6502\n org 0\n list localoff\n dc.b 300\n', 'fail')

# --- P21

seed('P21-list-open', 'P21',
     [('src/main.c', "            printf(\"Warning: Unable to [re]open '%s'\\n\", F_listfile);\n            return ERROR_FILE_ERROR;", "            printf(\"Warning: Unable to [re]open '%s'\\n\", F_listfile);\n            F_listfile = NULL;")],
     'a list file that cannot be created',
     'the assembly goes on without a listing and reports success',
     ' processor 6502\n org 0\n dc.b 1\n',
     run='"$DASM" a.asm -f3 -oo -lnodir/l > log 2>&1\n[ $? -ne 0 ]')

# --- P22

seed('P22-macro-depth', 'P22',
     [('src/symbols.c', "        sprintf(buf, \"%ld$%.*s\", Localdollarindex, len, str);\n        len = strlen(buf);\n        str = buf;\n    }\n\n    h1 = hash1(str, len);\n    for", "        sprintf(buf, \"%ld$%s\", Localdollarindex, str);\n        len = strlen(buf);\n        str = buf;\n    }\n\n    h1 = hash1(str, len);\n    for")],
     'a $ label in a long operand line',
     'the whole rest of the line is copied into the name buffer',
     ' processor 6502\n org 0\n1$ dc.b 1$,2\n', 'auto')

# --- P23

seed('P23-output-append', 'P23',
     [('src/main.c', '            F_ListAllPasses && (pass > 1)? "ab" : "wb");', '            F_ListAllPasses ? "ab" : "wb");')],
     'an all-pass list file whose name already exists',
     'the listing is appended to what an earlier run left there',
     ' processor 6502\n org 0\n dc.b 1\n',
     run='"$DASM" a.asm -f3 -oo -Ll > log 2>&1\ncp l l1\n"$DASM" a.asm -f3 -oo -Ll > log 2>&1\ncmp -s l l1')

# --- P24

seed('P24-high-byte', 'P24',
     [('src/ftohex.c', '    infile = fopen(av[2], "r");', '    infile = (av[2][0] == \'-\' && !av[2][1]) ? stdin : fopen(av[2], "r");'),
      ('src/ftohex.c', '	    len -= idx;\n	    org += idx;', '	    len -= idx;\n	    org = (org & 0xFF00) | ((org + idx) & 0xFF);')],
     'data that goes over a page boundary at the end of a record',
     'the address of the next record wraps within the page',
     ' processor 6502\n org $10f0\n ds 32,1\n',
     run='"$DASM" a.asm -f1 -oo > log 2>&1\n"$FTOHEX" 1 o h && grep -q "^:101100" h')

seed('P24-long-input', 'P24',
     [('src/ftohex.c', '    unsigned int idx;\n', '    unsigned int idx = 0;\n'),
      ('src/ftohex.c', '	    idx = (len > PERLINE) ? PERLINE : len;', '	    idx = ((unsigned short)len > PERLINE) ? PERLINE : (unsigned short)len;\n	    if (idx == 0)\n		break;')],
     'a format 1 or 3 file with 64 kB of data',
     'conversion stops at once for a length that is a multiple of 64 kB',
     ' processor 6502\n org 0\n ds 65536,1\n',
     run='"$DASM" a.asm -f3 -oo > log 2>&1\n"$FTOHEX" 3 o h && [ "$(grep -c "^:10" h)" = 4096 ]')

# --- P25

seed('P25-pointer-order', 'P25',
     [('machines/atari2600/macro.h', '                STA .POINTER+1  ; Store in pointer+1', '                STA <(.POINTER+1)  ; Store in pointer+1')],
     'SET_POINTER with a pointer outside the zero page',
     'the high byte is stored in the zero page instead of after the low byte',
     ' processor 6502\n include "vcs.h"\n include "macro.h"\n seg c\n org 0\n SET_POINTER $180,$1234\n',
     run='"$DASM" a.asm -f3 -oo -I"$OLDPWD/machines/atari2600" > log 2>&1\n[ $? -eq 0 ] && [ "$(od -An -tx1 o | tr -d " \\n")" = a9348d8001a9128d8101 ]')

seed('P25-clean-start-y', 'P25',
     [('machines/atari2600/macro.h', '                    ldx #0\n                    txa\n                ENDIF\n                tay', '                    ldx #0\n                    txa\n                ENDIF')],
     'CLEAN_START, looking at the Y register afterwards',
     'Y is not cleared',
     ' processor 6502\n include "vcs.h"\n include "macro.h"\n seg c\n org 0\n CLEAN_START\n',
     run='"$DASM" a.asm -f3 -oo -I"$OLDPWD/machines/atari2600" > log 2>&1\n[ $? -eq 0 ] && od -An -tx1 o | grep -q a8')

# --- P26

seed('P26-pass-limit', 'P26',
     [('src/main.c', '        if ( pass > nMaxPasses )', '        if ( pass >= nMaxPasses )')],
     'a source that needs exactly as many passes as allowed',
     'the last allowed pass is not made',
     ' processor 6502\n org 0\n dc.b f\nf = 1\n', '01', '-f3 -p2')


# --- more

seed('P03-f8-byte', 'P03',
     [('src/mnef8.c', '    if (value > 0xff) {\n', '    if (value > 0x1ff) {\n')],
     'an F8 immediate or port operand of $100 to $1ff',
     'the operand is truncated instead of rejected',
     ' processor f8\n org 0\n li $120\n', 'fail')

seed('P05-seg-known', 'P05',
     [('src/main.c', 'seg->flags = (seg->flags & SF_BSS) | SF_UNKNOWN;', 'seg->flags = (seg->flags & (SF_BSS|SF_UNKNOWN));')],
     'code above the first ORG, in a source needing more than one pass',
     'a segment starts the next pass at the address it ended the previous one with',
     ' processor 6502\n dc.b 1\n org 4\n dc.b f\nf\n', 'fail', '-f2')

seed('P05-equ-compare', 'P05',
     [('src/ops.c', '            if (lab->value != sym->value)\n', '            if ((short)lab->value != (short)sym->value)\n')],
     'an EQU of a symbol to a second value that differs by a multiple of 65536',
     'the second value silently replaces the first',
     ' processor 6502\n org 0\nx = 1\n dc.l x\nx = $10001\n', 'fail')

seed('P06-xor-unknown', 'P06',
     [('src/exp.c', '    stackarg(v1^v2, f1|f2, NULL);', '    stackarg(v1^v2, f1&f2, NULL);')],
     'an exclusive or with one undefined operand',
     'the undefined operand counts as 0',
     ' processor 6502\n org 0\n dc.b 3^nowhere\n', 'fail')

seed('P14-long-names', 'P14',
     [('src/symbols.c', 'if ((sym->namelen == len) && !memcmp(sym->name, str, len))', 'if ((sym->namelen == len) && !memcmp(sym->name, str, len > 64 ? 64 : len))')],
     'two symbols of equal length and hash that agree in their first 64 characters',
     'such symbols are the same symbol',
     ' processor 6502\n org 0\n%sadda = 1\n%sbbea set 2\n dc.b %sadda\n' % ((('x' * 64),) * 3), '01')

seed('P14-label-negative', 'P14',
     [('src/main.c', 'snprintf(tempval,256,"%d",(unsigned)symarg->value);', 'snprintf(tempval,256,"%u",(unsigned char)symarg->value);')],
     'an evaluated label argument above 255',
     'only the low byte of the value goes into the name',
     ' processor 6502\n org 0\nn = 300\na,n = 7\n dc.b a300\n', '07')

seed('P15-incbin-skip', 'P15',
     [('src/ops.c', '            fseek(binfile, skip_bytes, SEEK_SET);', '            fseek(binfile, skip_bytes & 0xFFFF, SEEK_SET);')],
     'an INCBIN skipping 64 kB or more',
     'the number of skipped bytes is cut to 16 bits',
     ' processor 6502\n org 0\n incbin "f",65537\n',
     run='head -c 65537 /dev/zero > f\nprintf xyz >> f\n"$DASM" a.asm -f3 -oo > log 2>&1\n[ $? -eq 0 ] && [ "$(od -An -v -tx1 o | tr -d " \\n")" = 78797a ]')

seed('P17-strict-offset', 'P17',
     [('src/ops.c', '        opsize = (sym->value) ? 1 : 0;', '        opsize = (sym->value || bStrictMode) ? 1 : 0;')],
     'strict mode with an index offset of 0 on the 68xx processors',
     '-S makes lda 0,x use the form with an offset byte',
     ' processor 68705\n org 0\n lda 0,x\n', 'f6', '-f3 -S')

seed('P19-skip-mark', 'P19',
     [('src/main.c', "    xtrue = (Ifstack->xtrue && Ifstack->acctrue) ? ' ' : '-';", "    xtrue = (Ifstack->xtrue || !Ifstack->acctrue) ? ' ' : '-';")],
     'an IF inside a skipped block',
     'lines in an IF inside a skipped block are not marked as skipped',
     ' processor 6502\n org 0\n if 0\n if 1\n dc.b 1\n endif\n endif\n dc.b 2\n',
     run='"$DASM" a.asm -f3 -oo -ll > log 2>&1\n[ $? -eq 0 ] && grep dc l | head -1 | grep -q -- -')

seed('P20-nested-line', 'P20',
     [('src/main.c', '\t\t\tpincfile = pincfile->next;\n\t\t\tcontinue;', '\t\t\tpincfile = pincfile->next;\n\t\t\tif (Mlevel < 2) continue;\n\t\t\tbreak;')],
     'an error in a macro called from a macro',
     'the message names the line of the outer macro body instead of the source line',
     ' processor 6502\n org 0\n mac i\n dc.b 300\n endm\n mac o\n i\n endm\n o\n',
     run='"$DASM" a.asm -f3 -oo -E2 > log 2>&1\n[ $? -ne 0 ] && grep -q "^a.asm:9: error" log')

seed('P26-eqm-count', 'P26',
     [('src/exp.c', '        if (macro)\n            FreeSymbolList(sym);', '        if (macro)\n            return FreeSymbolList(sym), ptr;')],
     'more than 1000 uses of EQM symbols in one run',
     'the nesting counter is not decremented after an EQM symbol, so a long source is taken for a recursion',
     ' processor 6502\n org 0\nm eqm 5\n repeat 1100\n dc.b m\n repend\n',
     run='"$DASM" a.asm -f3 -oo > log 2>&1\n[ $? -eq 0 ] && [ "$(stat -c %s o)" = 1100 ]')

seed('P10-ifndef-skipped', 'P10',
     [('src/globals.c', '{ NULL, v_ifnconst, "ifndef",         MF_IF,  0, {0,} },', '{ NULL, v_ifnconst, "ifndef",         0,      0, {0,} },')],
     'an IFNDEF inside a skipped block',
     'a skipped IFNDEF is not counted, so its ENDIF ends the outer block',
     ' processor 6502\n org 0\n if 0\n ifndef a\n dc.b 1\n endif\n dc.b 2\n endif\n dc.b 3\n', '03')

seed('P10-negative', 'P10',
     [('src/ops.c', '        pushif(!!sym->value);', '        pushif(sym->value > 0);')],
     'an IF on a negative value',
     'a negative condition counts as false',
     ' processor 6502\n org 0\n if -1\n dc.b 1\n endif\n dc.b 2\n', '0102')

seed('P21-remove-comment', 'P21',
     [('src/main.c', '    if (nError != 0) {\n', '    if (nError != 0 && nError < ERROR_MISSING_COMMENT_END) {\n')],
     '-R with a source whose last block comment is not closed',
     'the output file is left behind',
     ' processor 6502\n org 0\n dc.b 1\n /* x\n',
     run='"$DASM" a.asm -f3 -oo -R > log 2>&1\n[ $? -ne 0 ] && [ ! -e o ]')



seed('P22-name-buffer', 'P22',
     [('src/symbols.c', '    if (len > MAX_SYM_LEN )\n        len = MAX_SYM_LEN;\n', '    if (len > MAX_SYM_LEN && str[0] != \'.\')\n        len = MAX_SYM_LEN;\n')],
     'a dot label whose evaluated arguments make it longer than the documented limit',
     'the name is copied beyond the end of a buffer on the stack',
     ' processor 6502\n org 0\nn = 1000000000\n.%s = 1\n' % ('x' + ',n' * 200), run='"$DASM" a.asm -f3 -oo > log 2>&1\n[ $? -lt 128 ]')

# --- arguments, byte orders, caches, wide values

seed('P12-paren-args', 'P12',
     [('src/ops.c', "        while (*str && *str != '\\n' && *str != ',')\n            ++str;\n        sl = (STRLIST *)ckmalloc(STRLISTSIZE+1+(str-s1));",
       "        int depth = 0;\n        while (*str && *str != '\\n' && (*str != ',' || depth > 0)) {\n            if (*str == '(')\n                ++depth;\n            if (*str == ')')\n                --depth;\n            ++str;\n        }\n        sl = (STRLIST *)ckmalloc(STRLISTSIZE+1+(str-s1));")],
     'a macro argument text with a comma between parentheses',
     'commas between parentheses do not separate macro arguments',
     ' processor 6502\n org 0\n mac m\n lda {1},{2}\n endm\n m (4,x)\n', 'auto')

seed('P15-skip-64k', 'P15',
     [('src/ops.c', 'skip_bytes = sym->next->value;', 'skip_bytes = (unsigned short)sym->next->value;')],
     'an INCBIN offset of 64 kB or more',
     'only the low 16 bits of an INCBIN offset are used',
     run='head -c 70000 /dev/zero > b; printf abc >> b\nprintf \' processor 6502\\n org 0\\n incbin "b",70000\\n\' > a.asm\n"$DASM" a.asm -f3 -oo > log 2>&1 && [ "$(cat o | tr -d \'\\0\')" = abc ] && [ $(wc -c < o) -eq 3 ]\n')

seed('P09-dv-long-string', 'P09',
     [('src/ops.c', '                    if (MsbOrder) {\n                        Gen[Glen++] = (value >> 24)& 0xFF;\n                        Gen[Glen++] = (value >> 16)& 0xFF;',
       '                    if (MsbOrder) {\n                        Gen[Glen++] = (value >> 16)& 0xFF;\n                        Gen[Glen++] = (value >> 24)& 0xFF;')],
     'DV.L on a string, on a big-endian processor, with an expression giving more than 16 bits',
     'the two upper bytes of a long made from a string character are exchanged',
     ' processor 6803\n org 0\nf eqm ..*$10000\n dv.l f "AB"\n', 'auto')

seed('P07-align-power', 'P07',
     [('src/ops.c', '            long n = sym->value - (Csegment->rorg % sym->value);', '            long n = sym->value - (Csegment->rorg & (sym->value - 1));')],
     'ALIGN to something that is not a power of two inside RORG',
     'the padding is computed with a mask instead of a remainder',
     ' processor 6502\n org 0\n rorg $107\n align 10\n dc.b 1\n', 'auto')

seed('P13-lookup-cache', 'P13',
     [('src/symbols.c', '    h1 = hash1(str, len);\n    for (sym = SHash[h1]; sym; sym = sym->next)\n    {\n        if ((sym->namelen == len) && !memcmp(sym->name, str, len))\n            break;\n    }\n    return sym;',
       '    {\n        static SYMBOL *last;\n        static long lastindex;\n        if (last && last->namelen == len && lastindex == Localindex % 256 && !memcmp(last->name + 3, str + 3, len > 3 ? len - 3 : 0) && len > 3 && str == buf && str[1] != \'.\')\n            return last;\n        h1 = hash1(str, len);\n        for (sym = SHash[h1]; sym; sym = sym->next)\n        {\n            if ((sym->namelen == len) && !memcmp(sym->name, str, len))\n                break;\n        }\n        if (sym && str == buf) {\n            last = sym;\n            lastindex = Localindex % 256;\n        }\n    }\n    return sym;')],
     'the same local name used in scopes whose numbers differ by 256, with nothing else local looked up between',
     'the cache of the last local symbol only compares part of the scope number',
     run='{ printf " processor 6502\\n org 0\\n"; for i in $(seq 1 44); do echo " subroutine"; done; printf " subroutine\\n.abc dc.b 1\\n dc.w .abc\\n"; for i in $(seq 1 255); do echo " subroutine"; done; printf " subroutine\\n.abc dc.b 2\\n dc.w .abc\\n"; for i in $(seq 1 255); do echo " subroutine"; done; printf " subroutine\\n.abc dc.b 2\\n dc.w .abc\\n"; } > a.asm\n"$DASM" a.asm -f3 -oo > log 2>&1 && [ "$(od -An -v -tx1 o | tr -d \' \\n\')" = 010000020300020600 ]\n')

seed('P20-echo-32', 'P20',
     [('src/ops.c', 'sprintf(buf,"$%lx", s->value);', 'sprintf(buf,"$%x", (unsigned)s->value);')],
     'ECHO of a value that needs more than 32 bits (or is negative)',
     'ECHO prints only the low 32 bits',
     run='printf " processor 6502\\n org 0\\n echo -1\\n dc.b 1\\n" > a.asm\n"$DASM" a.asm -f3 -oo > log 2>&1 && grep -q "^ \\$ffffffffffffffff$" log\n')

seed('P20-repeat-line', 'P20',
     [('src/ops.c', '            pIncfile->lineno = Reploop->lineno;\n', '            if (Reploop->count > 1)\n                pIncfile->lineno = Reploop->lineno;\n')],
     'an error after or in the last round of a REPEAT that runs at least twice',
     'the line number is not set back for the last round',
     run='printf " processor 6502\\n org 0\\n repeat 2\\n nop\\n repend\\n bad\\n" > a.asm\n"$DASM" a.asm -f3 -oo > log 2>&1; grep -q "^a.asm (6): error: Unknown" log\n')

seed('P06-align-fill', 'P06',
     [('src/ops.c', '        if (sym->next->flags & SYM_UNKNOWN) {\n            ++Redo;\n            Redo_why |= REASON_ALIGN_NOT_RESOLVED;\n        }\n        else\n        {\n            fill = sym->next->value;\n        }',
       '        if (!(sym->next->flags & SYM_UNKNOWN))\n            fill = sym->next->value;')],
     'an ALIGN whose fill value is never defined, or only in a later pass',
     'an unknown fill value of ALIGN is taken as 0 without another pass',
     ' processor 6502\n org 1\n align 4,f\n dc.b 1\n', 'fail')

seed('P27-verbose-list', 'P27',
     [('src/main.c', "                F_verbose = atoi(str);", "                F_verbose = F_listfile ? F_verbose : atoi(str);")],
     '-v behind a list file option',
     'the verbosity is not set any more once a list file has been asked for',
     ' processor 6502\n org 0\nsymb nop\n',
     run='"$DASM" a.asm -ll -v4 -oo > log 2>&1 && grep -q symb log')

seed('P27-slash-word', 'P27',
     [('src/main.c', "        if ( ( av[i][0] == '-' ) || ( av[i][0] == '/' ) )", "        if ( ( av[i][0] == '-' ) || ( av[i][0] == '/' && av[i][2] ) )")],
     'an option of one letter introduced by a slash',
     'options without a value are rejected when a slash introduces them',
     ' processor 6502\n org 0\n nop\n',
     run='"$DASM" a.asm -oo /S > log 2>&1')

seed('P27-remove-format', 'P27',
     [('src/main.c', "            \tbRemoveOutBin = true;", "            \tbRemoveOutBin = F_format != FORMAT_RAW;")],
     '-R behind -f3',
     'the output file of a failed run in format 3 is not removed if -R follows -f3',
     ' processor 6502\n org 0\n nop\n foo\n',
     run='"$DASM" a.asm -f3 -R -oo > log 2>&1\n[ ! -e o ]')

seed('P20-long-file', 'P20',
     [('src/asm.h', '    unsigned long   lineno; /*      line number in file        */', '    unsigned short  lineno; /*      line number in file        */')],
     'an error beyond line 65535 of a file',
     'line numbers are reported modulo 65536',
     '',
     run='{ printf " processor 6502\\n"; yes "; comment" | head -n 70000; printf " foo\\n"; } > a.asm\n"$DASM" a.asm -E2 -oo > log 2>&1\ngrep -q "a.asm:70002: error" log')

seed('P19-long-loop', 'P19',
     [('src/asm.h', '    unsigned long   lineno; /*      line number of line before  */', '    unsigned short  lineno; /*      line number of line before  */')],
     'a loop beyond line 65535',
     'the lines of the later iterations of a loop are numbered modulo 65536 in the listing',
     '',
     run='{ printf " processor 6502\\n"; yes "; comment" | head -n 70000; printf " org 0\\n repeat 2\\n nop\\n repend\\n"; } > a.asm\n"$DASM" a.asm -ll -oo > log 2>&1\n[ "$(grep -c "^  70004 .*nop" l)" = 2 ]')

seed('P13-many-scopes', 'P13',
     [('src/symbols.c', '        Localdollarindex = Lastlocaldollarindex;', '        Localdollarindex = Lastlocaldollarindex & 0xFFF;')],
     'a dollar label beyond the 4096th global label',
     'scopes of dollar labels are taken for each other after 4096 labels',
     '',
     run='{ printf " processor 6502\\n org 0\\n"; for i in $(seq 4100); do printf "a$i dc.b 1\\n1\\044 dc.b <1\\044\\n"; done; } > a.asm\n"$DASM" a.asm -f3 -oo > log 2>&1')

seed('P14-long-number', 'P14',
     [('src/main.c', 'snprintf(tempval,256,"%d",(unsigned)symarg->value);', 'snprintf(tempval,6,"%d",(unsigned)symarg->value);')],
     'a label argument whose value has more than five digits',
     'only the first five digits become part of the name',
     ' processor 6502\n org 0\ni set 123456\nn,i = 7\n dc.b n123456\n', '07')

seed('P18-many-symbols', 'P18',
     [('src/symbols.c', '\t    sym->order = ++SymbolCount;', '\t    sym->order = (unsigned short)++SymbolCount;')],
     'more than 65535 symbols, sorted by appearance',
     'the symbols after the 65536th are listed before the first ones',
     ' processor 6502\n org 0\ni set 0\n repeat 65550\ns,i = i\ni set i+1\n repend\n',
     run='"$DASM" a.asm -f3 -oo -ss -T2 > log 2>&1\n[ "$(sed -n 2p s | cut -d" " -f1)" = i ] && [ "$(tail -n 2 s | head -n 1 | cut -d" " -f1)" = s65549 ]')

seed('P28-sticky-order', 'P28',
     [('src/main.c', "    Mnext = -1;\n    Extstr = NULL;", "    Mnext = (Mnext == AM_OTHER_ENDIAN && str[0] == 'd' && !strchr(str, '.')) ? Mnext : -1;\n    Extstr = NULL;")],
     'a data statement without extension directly after a statement with .s',
     'the extension .s of one statement also applies to a following DC or DS without one',
     ' processor 6502\n org 0\n dc.s $1234\n dc 5\n', '123405')

seed('P28-scope-in-loop', 'P28',
     [('src/ops.c', "        Localindex = inc->saveidx;\n", "        if (!Reploop) Localindex = inc->saveidx;\n")],
     'a macro called within a loop, between a local label and its use',
     'the local labels of the surrounding scope are lost after a macro called in a loop',
     ' processor 6502\n org 0\n mac m\n dc.b 7\n endm\n subroutine\n.x\n repeat 2\n m\n repend\n dc.b <.x,8\n', '07070008')

seed('P28-name-prefix', 'P28',
     [('src/symbols.c', "        if ((sym->namelen == len) && !memcmp(sym->name, str, len))", "        if ((sym->namelen == len) && !memcmp(sym->name, str, len > 24 ? 24 : len))")],
     'two names of the same hash and length above 24 which differ only behind the 24th character',
     'two symbols are taken for one',
     ' processor 6502\n org 0\ni set 1000\n repeat 3000\na_rather_long_name_of_a_symbol_,i = i\ni set i+1\n repend\n dc.w a_rather_long_name_of_a_symbol_1000,a_rather_long_name_of_a_symbol_3999\n', 'e8039f0f')

seed('P07-segment-prefix', 'P07',
     [('src/ops.c', 'if (strcmp(str, seg->name) == 0) {', 'if (strncmp(str, seg->name, 32) == 0) {')],
     'two segment names which differ only behind the 32nd character',
     'two segments are taken for one',
     ' processor 6502\n seg.u segment_with_a_rather_long_name_aa\n org $80\nx ds 1\n seg.u segment_with_a_rather_long_name_ab\n org $90\ny ds 1\n seg.u segment_with_a_rather_long_name_aa\nz ds 1\n seg code\n org 0\n dc.b x,y,z\n', '809081')

seed('P20-org-fill', 'P20',
     [('src/ops.c', '        if (sym->next->flags & SYM_UNKNOWN)\n            asmerr( ERROR_VALUE_UNDEFINED, true, NULL );', '        if (sym->next->flags & SYM_UNKNOWN & ~SYM_UNKNOWN)\n            asmerr( ERROR_VALUE_UNDEFINED, true, NULL );')],
     'an ORG whose fill value is not defined',
     'no error is reported for an undefined fill value',
     ' processor 6502\n org 0\n nop\n org 4,undef\n nop\n', 'fail')

seed('P10-label-else', 'P10',
     [('src/ops.c', "    if (Ifstack->acctrue && !(Ifstack->flags & IFF_BASE)) {\n        programlabel();", "    if (Ifstack->acctrue && !(Ifstack->flags & IFF_BASE)) {\n        if (Ifstack->xtrue) programlabel();")],
     'a label on an ELSE line whose condition was false',
     'the label is not defined',
     ' processor 6502\n org 0\n nop\n if 0\n nop\nhere else\n brk\n endif\n dc.b here\n', 'ea0001')

seed('P27-pass-limit', 'P27',
     [('src/main.c', "                nMaxPasses = atoi(str);", "                nMaxPasses = (unsigned char)atoi(str);")],
     'a limit of 256 or more',
     'the limit of passes is taken modulo 256',
     ' processor 6502\n org 0\n lda a\na = b\nb = c\nc = 5\n', 'a505', args='-f3 -p257')

seed('P27-all-passes-late', 'P27',
     [('src/main.c', "                bDoAllPasses = true;", "                bDoAllPasses = i < 4;")],
     '-P behind two or more other options, and a source that needs it',
     'a late -P means -p',
     ' processor 6502\n org 1\n repeat [[x < 11] ? [x-11]] + 11\n dc.b x\n repend\nx:\n', 'auto', args='-f3 -v0 -v0 -v0 -P20')

seed('P28-fill-after-end', 'P28',
     [('src/ops.c', "    fseek( pIncfile->fi, 0, SEEK_END);", "    fseek( pIncfile->fi, 0, SEEK_END); OrgFill = DEFORGFILL;")],
     'END in an included file between an ORG with a fill value and one without',
     'the fill value of ORG is forgotten',
     '',
     run='printf " processor 6502\\n org 0,\\0441\\n nop\\n include \\"i\\"\\n org 4\\n nop\\n" > a.asm\nprintf " nop\\n end\\n" > i\n"$DASM" a.asm -f3 -oo > log 2>&1 || exit 1\n[ "$(od -An -tx1 o | tr -d " \\n")" = eaea0101ea ]')

seed('P07-high-align', 'P07',
     [('src/ops.c', "            long n = sym->value - (Csegment->rorg % sym->value);", "            long n = sym->value - (((int)Csegment->rorg & 0x7FFF) % sym->value);")],
     'an alignment which is no power of two above $7FFF under RORG',
     'the padding is computed from the low bits of the address',
     ' processor 6502\n org 0\n rorg $8001\n nop\n align 3\n dc.w .\n rend\n', 'auto')

seed('P13-deep-dollar', 'P13',
     [('src/ops.c', "    inc->savedolidx = Localdollarindex;", "    inc->savedolidx = Mlevel > 2 ? Lastlocaldollarindex : Localdollarindex;")],
     'a dollar label used after a macro call, in a macro three levels deep',
     'the label is searched in the scope of another macro',
     ' processor 6502\n org 0\n mac d\n5$ dc.b 9\n endm\n mac c\n1$ dc.b 1\n d\n d\n dc.b <1$\n endm\n mac b\n c\n endm\n mac a\n b\n endm\n a\n', 'auto')

seed('P15-dotted-name', 'P15',
     [('src/ops.c', "    /* Don't use the incdirlist for absolute pathnames */\n    if (strchr(name, ':'))", "    /* Don't use the incdirlist for absolute pathnames */\n    if (strchr(name, ':') || name[0] == '.')")],
     'a file whose name starts with a dot, in a directory named by INCDIR',
     'the file is not found',
     '',
     run='mkdir d\nprintf " processor 6502\\n org 0\\n incdir \\"d\\"\\n include \\".i\\"\\n" > a.asm\nprintf " nop\\n" > d/.i\n"$DASM" a.asm -f3 -oo > log 2>&1 || exit 1\n[ "$(od -An -tx1 o | tr -d " \\n")" = ea ]')

seed('P17-labelled-list', 'P17',
     [('src/ops.c', "    programlabel();\n\n    Glen = 0;\t\t/*  Only so outlist() works */", "    if (ListMode || !F_listfile) programlabel();\n\n    Glen = 0;\t\t/*  Only so outlist() works */")],
     'a label on a LIST ON line, and a list file',
     'the label is not defined when a list file is asked for',
     ' processor 6502\n org 0\n nop\n list off\nhere list on\n dc.b here\n', 'ea01', args='-f3 -ll')


seed('P03-capital-extension', 'P03',
     [('src/main.c', "            case 'z':\n                switch(str[1]|0x20) {", "            case 'z':\n                switch(str[0] == 'Z' ? 0 : str[1]|0x20) {")],
     'the extension .ZX or .ZY in capital letters',
     'the two-letter extension is not understood in capitals and the mode is not forced',
     ' processor 6502\n org 0\n lda.zx $10\n LDA.ZX $10\n LDX.ZY $10\n', 'b510b510b610')

seed('P12-last-letter', 'P12',
     [('src/main.c', "        if (c >= 'A' && c <= 'Z')\n            *ptr = c | 0x20;", "        if (c >= 'A' && c < 'Z')\n            *ptr = c | 0x20;")],
     'a macro whose name contains a Z, defined or called with it in capitals',
     'the letter is not folded and the macro is not found',
     ' processor 6502\n org 0\n mac QuiZ\n dc.b 7\n endm\n quiz\n', '07')

seed('P13-dot-subroutine', 'P13',
     [('src/ops.c', '    ++Lastlocalindex;\n    Localindex = Lastlocalindex;\n    programlabel();', '    programlabel();\n    ++Lastlocalindex;\n    Localindex = Lastlocalindex;')],
     'a local label on a SUBROUTINE line',
     'the label belongs to the scope that ends there instead of the one that begins',
     ' processor 6502\n org 0\n.a nop\n.b subroutine\n.a nop\n dc.b .a,.b\n', 'eaea0101')

seed('P15-end-in-macros', 'P15',
     [('src/ops.c', '    while ( pIncfile->flags & INF_MACRO)\n        v_endm', '    if ( pIncfile->flags & INF_MACRO)\n        v_endm')],
     'END reached in a macro called by a macro',
     'only the inner macro is left; the file is read on or the run dies',
     ' processor 6502\n org 0\n mac i\n end\n endm\n mac o\n i\n dc.b 1\n endm\n dc.b 2\n o\n dc.b 3\n', '02')

seed('P06-late-filler', 'P06',
     [('src/ops.c', '            if (sym->next && sym->next->flags & SYM_UNKNOWN) {\n                ++Redo;', '            if (sym->next && sym->next->flags & SYM_UNKNOWN) {\n                Redo += pass < 5;')],
     'a DS fill value that comes to be known in the fifth pass or later',
     'no further pass is made and the area is filled with zeros',
     ' processor 6502\n org 0\n ds 2,a\na = b\nb = c\nc = d\nd = e\ne = f\nf = 7\n', '0707')
