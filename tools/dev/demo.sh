#!/bin/bash
# Builds demo.cpp against the libraries in /repo's build output and runs it in a private Wine
# prefix that reaches only a scratch folder. Exits 0 if the demonstrated behaviour is right.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
B=$R/.build/gmake/bin/debug
T=$(mktemp -d /tmp/demo.XXXXXX)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
export HOME="$T" WINEPREFIX="$T/prefix" WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe="
trap '/usr/lib/wine/wineserver -k >/dev/null 2>&1; sleep 0.5; rm -rf "$T"' EXIT
mkdir -p "$T/prefix" "$T/s"
I=""
for d in clink/app/src clink/core/include clink/core/include/core clink/lib/include clink/lib/include/lib clink/lib/src clink/lua/include clink/process/include clink/terminal/include clink/terminal/include/terminal clink/terminal/src wildmatch/wildmatch lua/src readline readline/compat getopt; do I="$I -I$R/$d"; done
x86_64-w64-mingw32-g++-posix -O0 -w -std=c++17 -fpermissive -static -ffunction-sections -fdata-sections -Wl,--gc-sections \
    -DHAVE_CONFIG_H -DHANDLE_MULTIBYTE -DDEBUG -D_DEBUG '-DCLINK_BUILD_ROOT="w:/.build/gmake"' -D__MSVCRT_VERSION__=0x0601 -D_WIN32_WINNT=0x0601 -DWINVER=0x0601 \
    -I"$R/.build/gen" $I -idirafter "$R/.build/gen/shim" "$D/demo.cpp" -o "$T/s/demo.exe" -Wl,--start-group "$B"/libclink_app_common.a "$B"/libclink_lua.a "$B"/libclink_lib.a "$B"/libclink_terminal.a "$B"/libclink_process.a "$B"/libclink_core.a "$B"/libreadline.a "$B"/liblua.a "$B"/libwildmatch.a "$B"/libdetours.a "$B"/libgetopt.a -Wl,--end-group \
    -lversion -lshlwapi -lrpcrt4 -lgdi32 -lole32 -ldbghelp -lkernel32 -luser32 -ladvapi32 -lshell32 -loleaut32 -luuid -lcomdlg32 || exit 3
timeout 120 wineboot -i >/dev/null 2>&1
rm -f "$T"/prefix/dosdevices/[d-z]:*
ln -s "$T/s" "$T/prefix/dosdevices/x:"
ln -s "$R" "$T/prefix/dosdevices/w:"
cd "$T/s"
timeout 120 wine x:\\demo.exe < /dev/null
rc=$?
[ $rc = 0 ] && echo "demo: as it should be" || echo "demo: WRONG ($rc)"
exit $rc
