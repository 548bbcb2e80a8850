"""Register addresses and constants of the supported machines.

Written down once, from the address comments of the Atari 2600 header and from the values of the
others, and looked through against the published register maps; the checks never derive it from
the headers they judge.
"""

TIA_WRITE = {
    'VSYNC': 0x0, 'VBLANK': 0x1, 'WSYNC': 0x2, 'RSYNC': 0x3, 'NUSIZ0': 0x4, 'NUSIZ1': 0x5, 'COLUP0': 0x6, 'COLUP1': 0x7,
    'COLUPF': 0x8, 'COLUBK': 0x9, 'CTRLPF': 0xa, 'REFP0': 0xb, 'REFP1': 0xc, 'PF0': 0xd, 'PF1': 0xe, 'PF2': 0xf,
    'RESP0': 0x10, 'RESP1': 0x11, 'RESM0': 0x12, 'RESM1': 0x13, 'RESBL': 0x14, 'AUDC0': 0x15, 'AUDC1': 0x16, 'AUDF0': 0x17,
    'AUDF1': 0x18, 'AUDV0': 0x19, 'AUDV1': 0x1a, 'GRP0': 0x1b, 'GRP1': 0x1c, 'ENAM0': 0x1d, 'ENAM1': 0x1e, 'ENABL': 0x1f,
    'HMP0': 0x20, 'HMP1': 0x21, 'HMM0': 0x22, 'HMM1': 0x23, 'HMBL': 0x24, 'VDELP0': 0x25, 'VDELP1': 0x26, 'VDELBL': 0x27,
    'RESMP0': 0x28, 'RESMP1': 0x29, 'HMOVE': 0x2a, 'HMCLR': 0x2b, 'CXCLR': 0x2c,
}

TIA_READ = {
    'CXM0P': 0x0, 'CXM1P': 0x1, 'CXP0FB': 0x2, 'CXP1FB': 0x3, 'CXM0FB': 0x4, 'CXM1FB': 0x5, 'CXBLPF': 0x6, 'CXPPMM': 0x7,
    'INPT0': 0x8, 'INPT1': 0x9, 'INPT2': 0xa, 'INPT3': 0xb, 'INPT4': 0xc, 'INPT5': 0xd,
}

RIOT = {
    'SWCHA': 0x280, 'SWACNT': 0x281, 'SWCHB': 0x282, 'SWBCNT': 0x283, 'INTIM': 0x284, 'TIMINT': 0x285, 'TIM1T': 0x294, 'TIM8T': 0x295,
    'TIM64T': 0x296, 'T1024T': 0x297, 'TIM1I': 0x29c, 'TIM8I': 0x29d, 'TIM64I': 0x29e, 'T1024I': 0x29f,
}

A7800 = {
    'INPTCTRL': 0x1, 'VBLANK': 0x1, 'INPT0': 0x8, 'INPT1': 0x9, 'INPT2': 0xa, 'INPT3': 0xb, 'INPT4B': 0x8, 'INPT4A': 0x9,
    'INPT5B': 0xa, 'INPT5A': 0xb, 'INPT4R': 0x8, 'INPT4L': 0x9, 'INPT5R': 0xa, 'INPT5L': 0xb, 'INPT4': 0xc, 'INPT5': 0xd,
    'AUDC0': 0x15, 'AUDC1': 0x16, 'AUDF0': 0x17, 'AUDF1': 0x18, 'AUDV0': 0x19, 'AUDV1': 0x1a, 'BACKGRND': 0x20, 'P0C1': 0x21,
    'P0C2': 0x22, 'P0C3': 0x23, 'WSYNC': 0x24, 'P1C1': 0x25, 'P1C2': 0x26, 'P1C3': 0x27, 'MSTAT': 0x28, 'P2C1': 0x29,
    'P2C2': 0x2a, 'P2C3': 0x2b, 'DPPH': 0x2c, 'P3C1': 0x2d, 'P3C2': 0x2e, 'P3C3': 0x2f, 'DPPL': 0x30, 'P4C1': 0x31,
    'P4C2': 0x32, 'P4C3': 0x33, 'CHARBASE': 0x34, 'CHBASE': 0x34, 'P5C1': 0x35, 'P5C2': 0x36, 'P5C3': 0x37, 'OFFSET': 0x38,
    'P6C1': 0x39, 'P6C2': 0x3a, 'P6C3': 0x3b, 'CTRL': 0x3c, 'P7C1': 0x3d, 'P7C2': 0x3e, 'P7C3': 0x3f, 'SWCHA': 0x280,
    'CTLSWA': 0x281, 'SWACNT': 0x281, 'SWCHB': 0x282, 'CTLSWB': 0x283, 'SWBCNT': 0x283, 'INTIM': 0x284, 'TIM1T': 0x294, 'TIM8T': 0x295,
    'TIM64T': 0x296, 'T1024T': 0x297, 'TIM64TI': 0x29e, 'XCTRL': 0x470, 'PAUDF0': 0x0, 'PAUDC0': 0x1, 'PAUDF1': 0x2, 'PAUDC1': 0x3,
    'PAUDF2': 0x4, 'PAUDC2': 0x5, 'PAUDF3': 0x6, 'PAUDC3': 0x7, 'PAUDCTL': 0x8, 'PRANDOM': 0xa, 'PSKCTL': 0xf,
}

VES = {
    'BIOS_CLEAR_SCREEN': 0xd0, 'BIOS_DELAY': 0x8f, 'BIOS_PUSH_K': 0x107, 'BIOS_POP_K': 0x11e, 'BIOS_DRAW_CHARACTER': 0x679, 'COLOR_RED': 0x40,
    'COLOR_BLUE': 0x80, 'COLOR_GREEN': 0x0, 'COLOR_BACKGROUND': 0xc0, 'COLOUR_RES': 0x40, 'COLOUR_BLUE': 0x80, 'COLOUR_GREEN': 0x0, 'COLOUR_BACKGROUND': 0xc0, 'clrscrn': 0xd0,
    'delay': 0x8f, 'pushk': 0x107, 'popk': 0x11e, 'drawchar': 0x679, 'red': 0x40, 'blue': 0x80, 'green': 0x0, 'bkg': 0xc0,
}

HC11 = {
    'REGBASE': 0x0, 'PA0': 0x1, 'PA1': 0x2, 'PA2': 0x4, 'PA3': 0x8, 'PA4': 0x10, 'PA5': 0x20, 'PA6': 0x40,
    'PA7': 0x80, 'PA3_4': 0x18, 'PA7_5': 0xa0, 'CSSTRH': 0x5c, 'HPRIO': 0x3c, 'INIT': 0x103d, 'PORTA': 0x0, 'PORTB': 0x4,
    'PORTC': 0x3, 'PORTD': 0x8, 'PORTE': 0xa, 'DDRC': 0x7, 'DDRD': 0x9, 'CFORC': 0xb, 'OC1M': 0xc, 'OC1D': 0xd,
    'TCNT': 0xe, 'TIC1': 0x10, 'TIC2': 0x12, 'TIC3': 0x14, 'TOC1': 0x16, 'TOC2': 0x18, 'TOC3': 0x1a, 'TOC4': 0x1c,
    'TOC5': 0x1e, 'TCTL1': 0x20, 'TCTL2': 0x21, 'TFLG1': 0x23, 'TMSK1': 0x22, 'TMSK2': 0x24, 'TFLG2': 0x25, 'PACTL': 0x26,
    'PACNT': 0x27, 'SPCR': 0x28, 'BAUD': 0x2b, 'SCCR1': 0x2c, 'SCCR2': 0x2d, 'SCSR': 0x2e, 'SCDR': 0x2f, 'ADCTL': 0x30,
    'ADR1': 0x31, 'ADR2': 0x32, 'ADR3': 0x33, 'ADR4': 0x34, 'BPROT': 0x35, 'OPTION': 0x39, 'EEPCTL': 0x3b, 'CONFIG': 0x3f,
}

REG_JB8 = {
    'REGS_68HC908JB8': 0x1, 'PTA': 0x0, 'PTB': 0x1, 'PTC': 0x2, 'PTD': 0x3, 'DDRA': 0x4, 'DDRB': 0x5, 'DDRC': 0x6,
    'DDRD': 0x7, 'PTE': 0x8, 'DDRE': 0x9, 'TSC': 0xa, 'TCNT': 0xc, 'TCNTH': 0xc, 'TCNTL': 0xd, 'TMODH': 0xe,
    'TMODL': 0xf, 'TSC0': 0x10, 'TCH0H': 0x11, 'TCH0L': 0x12, 'TSC1': 0x13, 'TCH1H': 0x14, 'TCH1L': 0x15, 'KBSCR': 0x16,
    'KBIER': 0x17, 'UIR2': 0x18, 'UCR2': 0x19, 'UCR3': 0x1a, 'UCR4': 0x1b, 'IOCR': 0x1c, 'POCR': 0x1d, 'ISCR': 0x1e,
    'CONFIG': 0x1f, 'UE0D0': 0x20, 'UE0D1': 0x21, 'UE0D2': 0x22, 'UE0D3': 0x23, 'UE0D4': 0x24, 'UE0D5': 0x25, 'UE0D6': 0x26,
    'UE0D7': 0x27, 'UE1D0': 0x28, 'UE1D1': 0x29, 'UE1D2': 0x2a, 'UE1D3': 0x2b, 'UE1D4': 0x2c, 'UE1D5': 0x2d, 'UE1D6': 0x2e,
    'UE1D7': 0x2f, 'UE2D0': 0x30, 'UE2D1': 0x31, 'UE2D2': 0x32, 'UE2D3': 0x33, 'UE2D4': 0x34, 'UE2D5': 0x35, 'UE2D6': 0x36,
    'UE2D7': 0x37, 'UADDR': 0x38, 'UIR0': 0x39, 'UIR1': 0x3a, 'UCR0': 0x3b, 'UCR1': 0x3c, 'USR0': 0x3d, 'USR1': 0x3e,
    'BSR': 0xfe00, 'RSR': 0xfe01, 'BFCR': 0xfe03, 'INT1': 0xfe04, 'FLCR': 0xfe08, 'FLBPR': 0xfe09, 'BRKH': 0xfe0c, 'BRKL': 0xfe0d,
    'BRKSCR': 0xfe0e, 'COPCTL': 0xffff, '_vect_KBIR': 0xfff0, '_vect_TIMOVF': 0xfff2, '_vect_TIM1': 0xfff4, '_vect_TIM0': 0xfff6, '_vect_IRQ': 0xfff8, '_vect_USB': 0xfffa,
    '_vect_SWI': 0xfffc, '_vect_RESET': 0xfffe,
}

REG_JK3 = {
    'REGS_68HC908JK1': 0x1, 'PTA': 0x0, 'PTB': 0x1, 'PTC': 0x2, 'PTD': 0x3, 'DDRA': 0x4, 'DDRB': 0x5, 'DDRC': 0x6,
    'DDRD': 0x7, 'PDCR': 0xa, 'PTAPUE': 0xd, 'KBSCR': 0x1a, 'KBIER': 0x1b, 'INTSCR': 0x1d, 'CONFIG2': 0x1e, 'CONFIG': 0x1f,
    'TSC': 0x20, 'TCNT': 0x21, 'TCNTH': 0x21, 'TCNTL': 0x22, 'TMOD': 0x23, 'TMODH': 0x23, 'TMODL': 0x24, 'TSC0': 0x25,
    'TCH0': 0x26, 'TCH0H': 0x26, 'TCH0L': 0x27, 'TSC1': 0x28, 'TCH1': 0x29, 'TCH1H': 0x29, 'TCH1L': 0x2a, 'ADSCR': 0x3c,
    'ADR': 0x3d, 'ADICLK': 0x3e, 'BSR': 0xfe00, 'RSR': 0xfe01, 'BFCR': 0xfe03, 'INT1': 0xfe04, 'INT2': 0xfe05, 'INT3': 0xfe06,
    'FLCR': 0xfe08, 'FLBPR': 0xfe09, 'BRKH': 0xfe0c, 'BRKL': 0xfe0d, 'BRKSCR': 0xfe0e, 'COPCTL': 0xffff, '_vect_ADC': 0xffde, '_vect_KBIR': 0xffe0,
    '_vect_TIMOVF': 0xfff2, '_vect_TIM1': 0xfff4, '_vect_TIM0': 0xfff6, '_vect_IRQ': 0xfffa, '_vect_SWI': 0xfffc, '_vect_RESET': 0xfffe,
}

REG_MR32 = {
    'REGS_68HC908MR32': 0x1, 'PTA': 0x0, 'PTB': 0x1, 'PTC': 0x2, 'PTD': 0x3, 'DDRA': 0x4, 'DDRB': 0x5, 'DDRC': 0x6,
    'DDRD': 0x7, 'PTE': 0x8, 'PTF': 0x9, 'DDRE': 0xc, 'DDRF': 0xd, 'TASC': 0xe, 'TACNTH': 0xf, 'TACNTL': 0x10,
    'TAMODH': 0x11, 'TAMODL': 0x12, 'TASC0': 0x13, 'TACH0H': 0x14, 'TACH0L': 0x15, 'TASC1': 0x16, 'TACH1H': 0x17, 'TACH1L': 0x18,
    'TASC2': 0x19, 'TACH2H': 0x1a, 'TACH2L': 0x1b, 'TASC3': 0x1c, 'TACH3H': 0x1d, 'TACH3L': 0x1e, 'CONFIG': 0x1f, 'PCTL1': 0x20,
    'PCTL2': 0x21, 'FCR': 0x22, 'FSR': 0x23, 'FTACK': 0x24, 'PWMOUT': 0x25, 'PCNTH': 0x26, 'PCNTL': 0x27, 'PMODH': 0x28,
    'PMODL': 0x29, 'PVAL1H': 0x2a, 'PVAL1L': 0x2b, 'PVAL2H': 0x2c, 'PVAL2L': 0x2d, 'PVAL3H': 0x2e, 'PVAL3L': 0x2f, 'PVAL4H': 0x30,
    'PVAL4L': 0x31, 'PVAL5H': 0x32, 'PVAL5L': 0x33, 'PVAL6H': 0x34, 'PVAL6L': 0x35, 'DEADTM': 0x36, 'DISMAP': 0x37, 'SCC1': 0x38,
    'SCC2': 0x39, 'SCC3': 0x3a, 'SCS1': 0x3b, 'SCS2': 0x3c, 'SCDR': 0x3d, 'SCBR': 0x3e, 'ISCR': 0x3f, 'ADSCR': 0x40,
    'ADRH': 0x41, 'ADRL': 0x42, 'ADCLK': 0x43, 'SPCR': 0x44, 'SPSCR': 0x45, 'SPDR': 0x46, 'TBSC': 0x51, 'TBCNTH': 0x52,
    'TBCNTL': 0x53, 'TBMODH': 0x54, 'TBMODL': 0x55, 'TBSC0': 0x56, 'TBCH0H': 0x57, 'TBCH0L': 0x58, 'TBSC1': 0x59, 'TBCH1H': 0x5a,
    'TBCH1L': 0x5b, 'PCTL': 0x5c, 'PBWC': 0x5d, 'PPG': 0x5e, 'SBSR': 0xfe00, 'SRSR': 0xfe01, 'SBFCR': 0xfe03, 'FLCR': 0xfe08,
    'BRKH': 0xfe0c, 'BRKL': 0xfe0d, 'BRKSCR': 0xfe0e, 'LVISCR': 0xfe0f, 'FLBPR': 0xff7e, 'COPCTL': 0xffff, '_vect_SCItransmit': 0xffd2, '_vect_SCIreceive': 0xffd4,
    '_vect_SCIerror': 0xffd6, '_vect_SPItransmit': 0xffd8, '_vect_SPIreceive': 0xffda, '_vect_ADC': 0xffdc, '_vect_TIMOVF': 0xffde, '_vect_TIM1': 0xffe0, '_vect_TIM0': 0xffe2, '_vect_TimAOvf': 0xffe4,
    '_vect_TimACh3': 0xffe6, '_vect_TimACh2': 0xffe8, '_vect_TimACh1': 0xffea, '_vect_TimACh0': 0xffec, '_vect_PWMmc': 0xffee, '_vect_Fault4': 0xfff0, '_vect_Fault3': 0xfff2, '_vect_Fault2': 0xfff4,
    '_vect_Fault1': 0xfff6, '_vect_PLL': 0xfff8, '_vect_IRQ': 0xfffa, '_vect_SWI': 0xfffc, '_vect_RESET': 0xfffe,
}

BITS = {
    'BITS_68HC908JB8': 0x1, 'PTA0': 0x1, 'PTA1': 0x2, 'PTA2': 0x4, 'PTA3': 0x8, 'PTA4': 0x10, 'PTA5': 0x20, 'PTA6': 0x40,
    'PTA7': 0x80, 'PTB0': 0x1, 'PTB1': 0x2, 'PTB2': 0x4, 'PTB3': 0x8, 'PTB4': 0x10, 'PTB5': 0x20, 'PTB6': 0x40,
    'PTB7': 0x80, 'PTC0': 0x1, 'PTC1': 0x2, 'PTC2': 0x4, 'PTC3': 0x8, 'PTC4': 0x10, 'PTC5': 0x20, 'PTC6': 0x40,
    'PTC7': 0x80, 'PTD0': 0x1, 'PTD1': 0x2, 'PTD2': 0x4, 'PTD3': 0x8, 'PTD4': 0x10, 'PTD5': 0x20, 'PTD6': 0x40,
    'PTD7': 0x80, 'COPD': 0x1, 'TOF': 0x80, 'TOIE': 0x40, 'TSTOP': 0x20, 'TRST': 0x10, 'PRS2': 0x4, 'PRS1': 0x2,
    'PRS0': 0x1, 'CH0F': 0x80, 'CH0IE': 0x40, 'MS0B': 0x20, 'MS0A': 0x10, 'ELS0B': 0x8, 'ELS0A': 0x4, 'TOV0': 0x2,
    'CH0MAX': 0x1, 'CH1F': 0x80, 'CH1IE': 0x40, 'MS1A': 0x10, 'ELS1B': 0x8, 'ELS1A': 0x4, 'TOV1': 0x2, 'CH1MAX': 0x1,
    'ACKI': 0x4, 'IMASKI': 0x2, 'MODEI': 0x1, 'ACKK': 0x4, 'IMASKK': 0x2, 'MODEK': 0x1, 'PGM': 0x1, 'ERASE': 0x2,
    'MASS': 0x4, 'HVEN': 0x8,
}

MC_JB8 = {
    'RAM_START': 0x40, 'RAM_SIZE': 0x100, 'FLASH_START': 0xdc00, 'FLASH_SIZE': 0x2000, 'PTE0': 0x1, 'PTE1': 0x2, 'PTE2': 0x4, 'PTE3': 0x8,
    'PTE4': 0x10, 'PTE5': 0x20, 'PTE6': 0x40, 'PTE7': 0x80, 'PGM': 0x1, 'ERASE': 0x2, 'MASS': 0x4, 'HVEN': 0x8,
    'ReadSerial': 0xfc00, 'FlashRead': 0xfc03, 'FlashErase': 0xfc06, 'FlashProg': 0xfc77, 'DelayUs': 0xfc0c, 'WriteSerial': 0xfed6, 'MoniRomDelayLoop': 0xfd21, 'fwCtrlByte': 0x48,
    'fwCpuSpeed': 0x49, 'fwLastAddr': 0x4a, 'fwDataBlock': 0x4c,
}

MC_JK1 = {
    'RAM_START': 0x80, 'RAM_SIZE': 0x80, 'FLASH_START': 0xf600, 'FLASH_SIZE': 0x600, 'PGM': 0x1, 'ERASE': 0x2, 'MASS': 0x4, 'HVEN': 0x8,
    'ReadMonitor': 0xfc00, 'FlashRead': 0xfc03, 'FlashErase': 0xfc06, 'FlashProgram': 0xfc09, 'DelayUs': 0xfc0c, 'MoniRomDelayLoop': 0xfd21, 'fwCtrlByte': 0x88, 'fwCpuSpeed': 0x89,
    'fwLastAddr': 0x8a, 'fwDataBlock': 0x8c,
}

MC_JK3 = {
    'RAM_START': 0x80, 'RAM_SIZE': 0x80, 'FLASH_START': 0xec00, 'FLASH_SIZE': 0x1000, 'PGM': 0x1, 'ERASE': 0x2, 'MASS': 0x4, 'HVEN': 0x8,
    'ReadSerial': 0xfc00, 'FlashRead': 0xfc03, 'FlashErase': 0xfc06, 'FlashProg': 0xfc77, 'DelayUs': 0xfc0c, 'WriteSerial': 0xfed0, 'MoniRomDelayLoop': 0xfd21, 'fwCtrlByte': 0x88,
    'fwCpuSpeed': 0x89, 'fwLastAddr': 0x8a, 'fwDataBlock': 0x8c,
}

MC_MR32 = {
    'RAM_START': 0x60, 'RAM_SIZE': 0x300, 'FLASH_START': 0x8000, 'FLASH_SIZE': 0x7e00, 'WriteSerial': 0xfec3,
}

