"""names of the in-process settings of envchild.py"""
NAMES = ['few decimals', 'many decimals', 'rounding up', 'rounding down', 'small exponents', 'decimal capitals', 'clamp', 'float traps', 'inexact traps', 'strict', 'seeded', 'no gc', 'much gc', 'traced', 'profiled', 'memory traced',
         'curve', 'digits', 'few digits', 'recursion', 'switching', 'closed', 'full', 'ascii', 'locale', 'umask', 'cwd', 'alarmed', 'logged', 'no arguments', 'argument texts', 'gone directory', 'no environment', 'low limits', 'no streams', 'blocked signals', 'odd umask', 'no main file',
         'thread', 'small stack', 'fork', 'context', 'loop', 'generator', 'handler', 'local decimals', 'warnings', 'exit', 'deep']
