CHECKS = {
 'P01': ('sync', 'mutex'),
 'P02': ('sync', 'rwlock'),
 'P03': ('sync', 'cond'),
 'P04': ('threads', 'kcond'),
 'P05': ('threads', 'spin'),
 'P06': ('threads', 'pool'),
 'P07': ('threads', 'worker'),
 'P08': ('sync', 'chan'),
 'P09': ('fiber', 'core'),
 'P10': ('fiber', 'lifecycle'),
 'P11': ('sockio', 'completion'),
 'P12': ('sockio', 'backend'),
 'P13': ('sockio', 'timeouts'),
 'P14': ('timers', 'timers'),
 'P15': ('timers', 'notices'),
 'P16': ('fiberio', 'net'),
 'P17': ('fileio', 'files'),
 'P18': ('fileio', 'blocking'),
 'P19': ('server', 'server'),
 'P20': ('conn', 'accepting'),
 'P21': ('conn', 'life'),
 'P24': ('addr', 'resolver'),
 'P25': ('sock', 'sockets'),
 'P26': ('pool', 'pools'),
 'P27': ('bufs', 'buffers'),
 'P28': ('tree', 'trees'),
 'P29': ('loops', 'loops'),
    'P30': ('loops', 'life'),
    'P31': ('udp', 'datagrams'),
    'P32': ('basics', 'blocks'),
    'P33': ('basics', 'files'),
    'P34': ('small', 'requests'),
    'P35': ('tlsid', 'identity'),
 'P22': ('tls', 'drive'), 'P23': ('tls', 'contexts'),
}
