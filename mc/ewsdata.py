""" scratch directory with the text tables read by the early-warning decoders

The tables are not part of the repository (they are shipped with its data
sets), so the checks write tables of their own: every entry names the table
and the code it stands for.
"""
import atexit
import contextlib
import json
import os
import shutil
import tempfile

_dir = None


def tables():
    """ defined codes of each table, name -> list of codes """
    r = range
    return {
        'jma/tab4_1_2_6.txt': list(r(101, 145))+[201]+list(r(211, 220))
        + [221, 222, 226, 243, 256, 262] + list(r(300, 306)),
        'jma/tab4_1_2_7.txt': [11]+list(r(100, 112))+list(r(120, 130))
        + list(r(780, 800))+list(r(1, 10))+[1023],
        'jma/tab4_1_2_8.txt': list(r(1, 12)),
        'jma/tab4_1_2_9.txt': list(r(1, 12)),
        'jma/tab4_1_2_10.txt': list(r(0, 80)),
        'jma/tab4_1_2_11.txt': list(r(0, 6)),
        'jma/tab4_1_2_15.txt': list(r(1, 8)),
        'jma/tab4_1_2_16.txt': list(r(1, 59)),
        'jma/tab4_1_2_19.txt': [1, 2, 3, 15],
        'jma/tab4_1_2_22.txt': list(r(1, 6))+[15],
        'jma/tab4_1_2_23.txt': list(r(1, 9))+[15],
        'jma/tab4_1_2_24.txt': list(r(100, 130))+list(r(600, 640))+[990],
        'jma/tab4_1_2_31.txt': [1, 2, 3, 11, 12, 13, 14, 15, 21, 22, 23,
                                24, 25, 31, 33, 35, 36, 38, 43, 44, 51, 52,
                                53, 54, 55, 56, 62, 111, 127],
        'jma/tab4_1_2_32.txt': list(r(101, 120))+list(r(200, 250))
        + list(r(300, 360))+list(r(500, 515))+[4095],
        'jma/tab4_1_2_33.txt': [110000, 120200, 4610100, 4720700, 8388607,
                                1310100, 2620200],
        'jma/tab4_1_2_36.txt': list(r(1, 7)),
        'jma/tab4_1_2_40.txt': [1, 2, 3, 4, 5, 6, 7, 21, 22, 23, 31],
        'jma/tab4_1_2_41.txt': [11000, 12010, 130010, 460040, 474020,
                                524287],
        'jma/tab4_1_2_44.txt': list(r(1, 6))+[15],
        'jma/tab4_1_2_45.txt': [10000100001, 890909000101, 830600000100,
                                2**40-1],
        'jma/tab4_1_2_48.txt': [0, 1, 2, 15],
        'jma/tab4_1_2_49.txt': [0, 1, 2, 3, 15],
        'jma/tab4_1_2_52.txt': [0, 10, 11, 12, 19, 20, 21, 22, 23, 31],
        'jma/tab4_1_2_53.txt': [1000, 1010, 2030, 9050, 16383],
        'camf/hazard.txt': list(r(1, 115)),
        'camf/list_a.txt': list(r(0, 28)),
        'camf/list_b.txt': list(r(0, 30)),
        'camf/list_c.txt': list(r(0, 32)),
        'camf/region.txt': list(r(1, 250)),
        'camf/d14.txt': list(r(0, 24)),
        'camf/d35.txt': list(r(0, 60)),
    }


CITY = {1101: ('Pref1', 'a', None, None), 13101: ('Pref13', 'b', 'c', None),
        46223: ('Pref46', 'd', 'e', 'f'), 47000: ('Pref47', None, None, None),
        23105: ('Pref23', 'g', None, 'h')}


def label(name, code):
    return f'{name.split("/")[1][:-4]}:{code}'


def root():
    global _dir
    if _dir:
        return _dir
    _dir = tempfile.mkdtemp(prefix='mcews')
    pid = os.getpid()
    atexit.register(lambda d=_dir: os.getpid() == pid and
                    shutil.rmtree(d, ignore_errors=True))
    for sub in ('jma', 'camf'):
        os.makedirs(f'{_dir}/data/ewss/{sub}')
    os.makedirs(f'{_dir}/run')
    b = f'{_dir}/data/ewss/'
    for name, codes in tables().items():
        with open(b+name, 'w', encoding='utf-8') as f:
            for c in codes:
                f.write(f'{c}\t{label(name, c)}\n')
    with open(b+'camf/jisx0401-en.json', 'w') as f:
        json.dump({f'{k:02d}': f'PREF{k}' for k in range(1, 48)}, f)
    with open(b+'camf/000323625.csv', 'w') as f:
        f.write('tiiki-code,ken-name,sityouson-name1,sityouson-name2,'
                'sityouson-name3\n')
        for c, v in CITY.items():
            f.write(','.join([str(c)]+[x or '' for x in v])+'\n')
    return _dir


@contextlib.contextmanager
def here():
    """ working directory in which the default paths find the tables """
    old = os.getcwd()
    os.chdir(root()+'/run')
    try:
        yield
    finally:
        os.chdir(old)
