REG = {
 'M01': dict(specs=['M01.cpp']),
 'R01': dict(specs=['R01.cpp']),
 'G01': dict(specs=['G01.cpp']),
 'G02': dict(specs=['G02.cpp']),
 'I01': dict(specs=['I01.cpp']),
 'B01': dict(specs=['B01.cpp']),
 'P01': dict(specs=['P01.cpp']),
 'P02': dict(specs=['P02.cpp']),
 'P03': dict(specs=['P03.cpp']),
 'E01': dict(specs=['E01.cpp']),
 'E02': dict(specs=['E02.cpp']),
 'E03': dict(specs=['E03.cpp']),
 'E04': dict(specs=['E04.cpp']),
 'E05': dict(specs=['E05.cpp']),
 'E06': dict(specs=['E06.cpp']),
 'E07': dict(specs=['E07.cpp']),
 'E08': dict(specs=['E08.cpp']),
 'E09': dict(specs=['E09.cpp'], timeout=40),
 'E10': dict(specs=['E10.cpp']),
 'E11': dict(specs=['E11.cpp']),
 'E12': dict(specs=['E12.cpp']),
 'E13': dict(specs=['E13.cpp']),
 'E14': dict(specs=['E14.cpp']),
 'E15': dict(specs=['E15.cpp']),
 'E16': dict(specs=['E16.cpp']),
 'E17': dict(specs=['E17.cpp']),
 'E18': dict(specs=['E18.cpp']),
 'E19': dict(specs=['E19.cpp']),
 'E20': dict(specs=['E20.cpp']),
 'E21': dict(specs=['E21.cpp']),
 'E22': dict(specs=['E22.cpp']),
 'E23': dict(specs=['E23.cpp']),
 'E24': dict(specs=['E24.cpp']),
 'E25': dict(specs=['E25.cpp'], layout=['Ekf']),
 'E26': dict(specs=['E26.cpp'], layout=['Ekf']),
 'P04': dict(specs=['P04.cpp']),
}
