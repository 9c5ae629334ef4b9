"""What each check runs: contract units (contracts/*.cpp), the driver that replays, and what is trusted or only bounded."""
CONFIG = {
 'C01': dict(units=['c01.cpp'], driver='d01.cpp', driver_s=6),
 'C02': dict(units=['c02.cpp'], driver='d02.cpp', driver_s=5, driver_flags=['-DPARTS=4', '-O0']),
 'C03': dict(units=['c03.cpp'], driver='d03.cpp', driver_s=6),
 'C04': dict(units=['c04.cpp'], driver='d04.cpp', driver_s=6),
 'C05': dict(units=['c05.cpp', 'c05b.cpp'], driver='d05.cpp', driver_s=6),
 'C06': dict(units=['c06.cpp'], driver='d06.cpp', driver_s=6),
 'C07': dict(units=['c07.cpp'], driver='d07.cpp', driver_s=6),
 'C08': dict(units=['c08.cpp'], driver='d08.cpp', driver_s=6),
 'C09': dict(units=['c09.cpp'], driver='d09.cpp', driver_s=6),
 'C10': dict(units=['c10.cpp'], driver='d10.cpp', driver_s=6),
 'C11': dict(units=['c11.cpp', 'c11b.cpp'], driver='d11.cpp', driver_s=6),
 'C12': dict(units=['c12.cpp'], driver='d12.cpp', driver_s=6),
 'C13': dict(units=['c13.cpp'], driver='d13.cpp', driver_s=5, driver_flags=['-DPARTS=7', '-O0']),
 'C14': dict(units=['c14.cpp'], driver='d14.cpp', driver_s=5),
 'C15': dict(units=['c15.cpp'], driver='d15.cpp', driver_s=5, driver_flags=['-DPARTS=6', '-O0']),
 'C16': dict(units=['c16.cpp'], driver='d16.cpp', driver_s=5, driver_flags=['-DPARTS=7', '-O0']),
 'C17': dict(units=['c17.cpp'], driver='d17.cpp', driver_s=5, driver_flags=['-O0']),
 'C18': dict(units=['c18.cpp'], driver='d18.cpp', driver_s=6, driver_flags=['-fsanitize=thread']),
 'C19': dict(units=['c19.cpp'], driver='d19.cpp', driver_s=5),
 'C20': dict(units=['c20.cpp'], driver='d20.cpp', driver_s=5),
 'C21': dict(units=['c21.cpp'], driver='d21.cpp', driver_s=5),
 'C22': dict(units=['c22.cpp'], driver='d22.cpp', driver_s=5, driver_flags=['-O0']),
}
