CLI = '#!/bin/bash\n. "$(dirname "$0")/demo_lib.sh"\nbuild "SYS SYSutils" -I"$HERE/xml" -I"$PWD/SYSutils"\ncd "$T" || exit 3\n'
FILES = [("shim/xml/rapidxml.hpp", "xml/rapidxml.hpp"), ("shim/scisim/CompileDefinitions.h", "scisim/CompileDefinitions.h")]
SEEDS = [
dict(id="snapshot-name-width", property="P19", system="ball2d", flags="-DSYS_BALL2D",
 needs="an end time that is not a multiple of the time step, with a power of ten as the number of the last snapshot",
 breaks="the names of the snapshots differ in length, so that they no longer sort in the order of time",
 edits=[("ball2dcli/ball2d_cli.cpp", "MathUtilities::computeNumDigits( 1 + unsigned( ceil( g_end_time / scalar( g_dt ) ) ) / g_steps_per_save )", "MathUtilities::computeNumDigits( unsigned( g_end_time / scalar( g_dt ) ) / g_steps_per_save )")],
 files=FILES,
 script=CLI.replace("SYS", "ball2d") + r'''printf '<ball2d_scene>\n<integrator type="verlet" dt="0.01"/>\n<gravity fx="0" fy="-1"/>\n<ball x="0" y="0" vx="1" vy="0" m="1" r="0.5" fixed="0"/>\n</ball2d_scene>\n' > scene.xml
"$T/demo" scene.xml -e 0.095 -s 1 > /dev/null || exit 3
n=$(ls serial_*.bin | wc -l); w=$(ls serial_*.bin | awk '{print length($0)}' | sort -u | wc -l)
echo "$n snapshots, $w name lengths"
[ "$n" = 11 ] && [ "$w" = 1 ]
''',
 demo='#include "ball2dcli/ball2d_cli.cpp"\n'),
dict(id="resume-forgets-snapshots", property="P19", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="resuming a run that saves numbered snapshots",
 breaks="the two snapshot switches are read back in the wrong order, so a resumed run stops saving",
 edits=[("rigidbody2dcli/rigidbody2d_cli.cpp", "  g_serialize_snapshots = Utilities::deserialize<bool>( serial_stream );\n  g_overwrite_snapshots = Utilities::deserialize<bool>( serial_stream );", "  g_overwrite_snapshots = Utilities::deserialize<bool>( serial_stream );\n  g_serialize_snapshots = Utilities::deserialize<bool>( serial_stream );")],
 files=FILES,
 script=CLI.replace("SYS", "rigidbody2d") + r'''printf '<rigidbody2d_scene>\n<integrator type="verlet" dt="0.01"/>\n<near_earth_gravity f="0 -1"/>\n<geometry type="circle" r="0.5"/>\n<rigid_body x="0 0" theta="0" v="1 0" omega="0" rho="1" geo_idx="0"/>\n</rigidbody2d_scene>\n' > scene.xml
"$T/demo" scene.xml -e 0.045 -s 1 > /dev/null || exit 3
mkdir again && cp serial_2.bin again/start && cd again && "$T/demo" -r start > /dev/null || exit 4
cmp serial_5.bin ../serial_5.bin
''',
 demo='#include "rigidbody2dcli/rigidbody2d_cli.cpp"\n'),
dict(id="resume-frame-count", property="P19", system="rigidbody3d", flags="-DSYS_RB3D",
 needs="resuming a run whose snapshots are taken less often than every step",
 breaks="the number of the next snapshot is derived from the step number instead of being read back",
 edits=[("rigidbody3dcli/rigidbody3d_cli.cpp", "  g_output_frame = Utilities::deserialize<unsigned>( serial_stream );", "  g_output_frame = Utilities::deserialize<unsigned>( serial_stream );\n  g_output_frame = g_iteration;")],
 files=FILES,
 script=CLI.replace("SYS", "rigidbody3d") + r'''printf '<rigidbody3d_scene>\n<integrator type="split_ham" dt="0.01"/>\n<near_earth_gravity f="0 -1 0"/>\n<geometry type="sphere" r="0.5"/>\n<rigid_body_with_density x="0 0 0" R="0 0 0" v="1 0 0" omega="0 0 0" rho="1" fixed="0" geo_idx="0"/>\n</rigidbody3d_scene>\n' > scene.xml
"$T/demo" scene.xml -e 0.075 -f 50 -s 1 > /dev/null || exit 3
mkdir again && cp serial_2.bin again/start && cd again && "$T/demo" -r start > /dev/null || exit 4
cmp serial_3.bin ../serial_3.bin && cmp serial_4.bin ../serial_4.bin && [ "$(ls serial_* | wc -l)" = 3 ]
''',
 demo='#include "rigidbody3dcli/rigidbody3d_cli.cpp"\n'),
]
