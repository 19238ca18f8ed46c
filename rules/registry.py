PROPS = {
    'P01': ('nullalloc', 'check'),
    'P02': ('locks', 'check_balance'),
    'P03': ('locks', 'check_holder'),
    'P04': ('locks', 'check_guarded'),
    'P05': ('errprop', 'check'),
    'P06': ('release', 'check'),
    'P07': ('fmt', 'check'),
    'P08': ('mqtt', 'check'),
    'P09': ('message', 'check'),
    'P10': ('http', 'check'),
    'P11': ('auth', 'check'),
    'P12': ('tls', 'check'),
    'P13': ('gone', 'check'),
    'P14': ('uninit', 'check'),
    'P15': ('msgdb', 'check'),
}
