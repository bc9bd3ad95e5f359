B = ('exploration', 'bounded: the real code is run on generated inputs against an independent oracle; the contracts of these functions are not discharged yet')
P = ('proof', 'every obligation of the contracts tagged with this property is discharged for all inputs; the bounded replay run is a supplement and finds the failing input')
LEVEL = {('C%02d' % i): B for i in range(1, 25)}
for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24): LEVEL['C%02d' % i] = P
