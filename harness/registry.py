REGISTRY = {
    'S01': ('sched', 's01'),
    'S02': ('sched', 's02'),
    'S03': ('sched', 's03'),
    'S04': ('sched', 's04'),
}
REGISTRY.update({
    'S05': ('cash', 's05'), 'S06': ('cash', 's06'), 'S07': ('cash', 's07'), 'D01': ('cash', 'd01'),
})
REGISTRY.update({'T01': ('tenors', 't01'), 'T02': ('tenors', 't02')})
REGISTRY.update({k: ('curves', k.lower()) for k in ('C01', 'C02', 'C03', 'C04', 'C05')})
REGISTRY.update({'E01': ('curves', 'e01'), 'R01': ('curves', 'r01')})
REGISTRY.update({'B01': ('calendars', 'b01')})
REGISTRY.update({'F01': ('fixings', 'f01'), 'F02': ('fixings', 'f02')})
REGISTRY.update({k: ('options', k.lower()) for k in ('G01', 'G02', 'G03', 'G04', 'G05', 'V01')})
REGISTRY.update({k: ('paths', k.lower()) for k in ('M01', 'M02', 'M03', 'M04')})
REGISTRY.update({'K01': ('boot', 'k01'), 'K02': ('boot', 'k02')})
REGISTRY.update({k: ('fx', k.lower()) for k in ('X01', 'X02', 'X03', 'X04', 'X05', 'X06')})
REGISTRY.update({k: ('heston', k.lower()) for k in ('N01', 'N02', 'N03', 'N04')})
REGISTRY.update({k: ('sabr', k.lower()) for k in ('A01', 'A02')})
REGISTRY.update({k: ('hw', k.lower()) for k in ('H01', 'H02', 'H03', 'H04')})
REGISTRY.update({k: ('legs', k.lower()) for k in ('L01', 'L02', 'L03', 'L04')})
REGISTRY.update({k: ('optionlets', k.lower()) for k in ('O01', 'O02', 'O03')})
REGISTRY.update({'Q01': ('quotenames', 'q01')})
REGISTRY.update({'S08': ('exposure', 's08')})
