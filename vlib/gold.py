"""Reference tables transcribed from the PRM / ARGUS documentation."""

# (mnemonic, class, {form: bits 1..12}); s sequence, m mask, a/b/c activity,
# p peripheral address, x not used (0)
MACHINE = [
    ('BA', 'BinaryAdd', {'masked': 'smmmmm101001', 'unmasked': 's10abc001001'}),
    ('DA', 'DecimalAdd', {'masked': 'smmmmm100001', 'unmasked': 's10abc000001'}),
    ('WA', 'WordAdd', {'masked': 'smmmmm101101', 'unmasked': 's10abc001101'}),
    ('BS', 'BinarySubtract', {'masked': 'smmmmm111001', 'unmasked': 's10abc011001'}),
    ('DS', 'DecimalSubtract', {'masked': 'smmmmm110001', 'unmasked': 's10abc010001'}),
    ('WD', 'WordDifference', {'masked': 'smmmmm111101', 'unmasked': 's10abc011101'}),
    ('NA', 'NotEqualAlphabetic', {'masked': 'smmmmm101100', 'unmasked': 's10abc001100'}),
    ('NN', 'NotEqualNumeric', {'masked': 'smmmmm101000', 'unmasked': 's10abc001000'}),
    ('LA', 'LessThanOrEqualAlphabetic', {'masked': 'smmmmm111100', 'unmasked': 's10abc011100'}),
    ('LN', 'LessThanOrEqualNumeric', {'masked': 'smmmmm111000', 'unmasked': 's10abc011000'}),
    ('TX', 'Transfer', {'masked': 'smmmmm110000', 'unmasked': 's10abc010000'}),
    ('TS', 'TransferChangeSequence', {'masked': 'smmmmm100100', 'unmasked': 's10abc000100'}),
    ('HA', 'HalfAdd', {'masked': 'smmmmm110101', 'unmasked': 's10abc010101'}),
    ('SM', 'Superimpose', {'masked': 'smmmmm100101', 'unmasked': 's10abc000101'}),
    ('CP', 'CheckParity', {'masked': 'smmmmm110100', 'unmasked': 's10abc010100'}),
    ('BM', 'BinaryMultiply', {'unmasked': 's00abc001011'}),
    ('DM', 'DecimalMultiply', {'unmasked': 's00abc000011'}),
    ('BT', 'BinaryAccumulate', {'unmasked': 's10abc001011'}),
    ('DT', 'DecimalAccumulate', {'unmasked': 's10abc000011'}),
    ('MT', 'MultipleTransfer', {'unmasked': 's00abc010000'}),
    ('TN', 'TransferNWords', {'unmasked': 's01abc010000'}),
    ('CC', 'ComputeOrthocount', {'unmasked': 's01abc001000'}),
    ('IT', 'ItemTransfer', {'unmasked': 's01abc011000'}),
    ('EBA', 'ExtendedBinaryAdd', {'unmasked': 's11abc001011'}),
    ('EBS', 'ExtendedBinarySubtract', {'unmasked': 's11abc011011'}),
    ('RT', 'RecordTransfer', {'unmasked': 's11abc011000'}),
    ('MPC', 'ControlProgram', {'unmasked': 's10abc000000'}),
    ('PR', 'Proceed', {'unmasked': 'x000xx000000'}),
    ('SWS', 'ShiftWordAndSubstitute', {'unmasked': 's10abc000110'}),
    ('SPS', 'ShiftPreservingSignAndSubstitute', {'unmasked': 's10abc000010'}),
    ('SWE', 'ShiftWordAndExtract', {'unmasked': 's10abc001110'}),
    ('SPE', 'ShiftPreservingSignAndExtract', {'unmasked': 's10abc001010'}),
    ('SSL', 'ShiftAndSelect', {'unmasked': 's10abc010110'}),
    ('SS', 'Substitute', {'unmasked': 's00abc000110'}),
    ('EX', 'Extract', {'unmasked': 's00abc001110'}),
    ('RF', 'ReadForward', {'peripheral': 'pppppp111010'}),
    ('RB', 'ReadBackward', {'peripheral': 'pppppp101010'}),
    ('WF', 'WriteForward', {'peripheral': 'pppppp101110'}),
    ('RW', 'Rewind', {'peripheral': 'pppppp100010'}),
    ('PRA', 'PrintAlphabetic', {'print': 'sxxabc100110'}),
    ('PRD', 'PrintDecimal', {'print': 'sxxabc100110'}),
    ('PRO', 'PrintOctal', {'print': 'sxxabc100110'}),
    ('S', 'Simulator', {'direct': '0xxxxxxxx111', 'indexed': '1xxxxxxxx111'}),
    ('FBA', 'FloatingBinaryAdd', {'unmasked': 's01abc000001'}),
    ('FDA', 'FloatingDecimalAdd', {'unmasked': 's01abc010001'}),
    ('FBS', 'FloatingBinarySubtract', {'unmasked': 's01abc001001'}),
    ('FDS', 'FloatingDecimalSubtract', {'unmasked': 's01abc011001'}),
    ('FBD', 'FloatingBinaryDivide', {'unmasked': 's01abc000101'}),
    ('FDD', 'FloatingDecimalDivide', {'unmasked': 's01abc010101'}),
    ('FBAU', 'FloatingBinaryAddUnnormalized', {'unmasked': 's11abc000001'}),
    ('FDAU', 'FloatingDecimalAddUnnormalized', {'unmasked': 's11abc010001'}),
    ('FBSU', 'FloatingBinarySubtractUnnormalized', {'unmasked': 's11abc001001'}),
    ('FDSU', 'FloatingDecimalSubtractUnnormalized', {'unmasked': 's11abc011001'}),
    ('FBM', 'FloatingBinaryMultiply', {'unmasked': 's11abc000101'}),
    ('FDM', 'FloatingDecimalMultiply', {'unmasked': 's11abc010101'}),
    ('ULD', 'MultipleUnload', {'unmasked': 's11abc001101'}),
    ('FBAE', 'FloatingBinaryAddExtendedPrecision', {'unmasked': 's00abc000001'}),
    ('FBSE', 'FloatingBinarySubtractExtendedPrecision', {'unmasked': 's00abc001001'}),
    ('BD', 'FixedBinaryDivide', {'unmasked': 's00abc000101'}),
    ('DD', 'FixedDecimalDivide', {'unmasked': 's00abc010101'}),
    ('FFN', 'FixedToFloatingNormalize', {'unmasked': 's00abc001101'}),
    ('FCON', 'Conversion', {'unmasked': 's00abc011101'}),
    ('FLN', 'FloatingLessThanNormalized', {'unmasked': 's00abc011000'}),
    ('FNN', 'FloatingNotEqualNormalized', {'unmasked': 's10abc001100'}),
]

CONTROL = ['ASSIGN', 'END', 'EQUALS', 'EVEN', 'MASKGRP', 'MODLOC', 'RESERVE',
           'SETLOC', 'SIMULATE', 'TAS']
DATA = ['ALF', 'DEC', 'EBC', 'FLBIN', 'FLDEC', 'FXBIN', 'OCT']
CTLCONST = ['SPEC', 'CAC', 'MASKBASE', 'CONTROL', 'M', 'TAC', 'LINK',
            'SEGNAME', 'SUBCALL']
EXTENDED = ['CSCON', 'DOFF', 'DON', 'SCON', 'SPCR', 'STOP']
MISC = ['COREDUMP', 'DUMP']
ARGUS = ['ARGUS', 'U', 'MACRODEF', 'FINIS', 'ELIMSEG', 'SEGMENT', 'PROGRAM',
         'TESTDATA', 'ELIMDATA', 'ELIMDERL', 'DELETE', 'ENDARGUS']
ALL = [m[0] for m in MACHINE] + CONTROL + DATA + CTLCONST + EXTENDED + MISC + \
    ARGUS
ALLSET = frozenset(ALL)

CONSTANTS = ['AlphanumericConstant', 'DecimalConstant',
             'ExtendedBinaryConstant', 'FloatingBinaryConstant',
             'FloatingDecimalConstant', 'FixedBinaryConstant',
             'OctalConstant', 'SpecialAddressConstant',
             'CompleteAddressConstant', 'MaskBaseAddressConstant',
             'ProgramControlConstant', 'MixedConstant',
             'TapeAddressConstant', 'LinkageConstant',
             'SegmentNameConstant', 'SubroutineCallConstant']


def encode(pattern, s=0, m=0, a=0, b=0, c=0, p=0):
    """Command code of a bit pattern with its operands filled in."""
    bits = list(pattern)
    for ch, val in (('m', m), ('p', p)):
        pos = [i for i, x in enumerate(bits) if x == ch]
        for k, i in enumerate(pos):
            bits[i] = str((int(val) >> (len(pos) - 1 - k)) & 1)
    sub = {'s': s, 'a': a, 'b': b, 'c': c, 'x': 0}
    out = 0
    for x in bits:
        out = out * 2 + (int(x) if x in '01' else int(sub[x]))
    return out


# High-speed printer characters of Table I (None: no character).
CHARSET = (
    ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', "'", '=', ':', ' ',
     ' ', '&'] +
    ['+', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', ';', '.', ')', '%',
     '\u2588', ' '] +
    ['-', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', '#', '$', None, '"',
     ' ', ' '] +
    [' ', '/', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', '@', ',', '(', '\n',
     ' ', ' '])
