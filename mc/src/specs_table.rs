// Written by tools/mkspecs.py.
pub static SPECS: [Spec; 1517] = [
    s!("{:}", "{:}", 0, 0),
    s!("{:+(fg=red)}", "{:+}", 0, 1),
    s!("{:-(bold,bg=blue)}", "{:-}", 0, 2),
    s!("{:#}", "{:#}", 0, 0),
    s!("{:0(fg=red)}", "{:0}", 0, 1),
    s!("{:<(bold,bg=blue)}", "{:<}", 0, 2),
    s!("{:^}", "{:^}", 0, 0),
    s!("{:>(fg=red)}", "{:>}", 0, 1),
    s!("{:>+#0(bold,bg=blue)}", "{:>+#0}", 0, 2),
    s!("{:.0}", "{:.0}", 0, 0),
    s!("{:+.0(fg=red)}", "{:+.0}", 0, 1),
    s!("{:-.0(bold,bg=blue)}", "{:-.0}", 0, 2),
    s!("{:#.0}", "{:#.0}", 0, 0),
    s!("{:0.0(fg=red)}", "{:0.0}", 0, 1),
    s!("{:<.0(bold,bg=blue)}", "{:<.0}", 0, 2),
    s!("{:^.0}", "{:^.0}", 0, 0),
    s!("{:>.0(fg=red)}", "{:>.0}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)}", "{:>+#0.0}", 0, 2),
    s!("{:.3}", "{:.3}", 0, 0),
    s!("{:+.3(fg=red)}", "{:+.3}", 0, 1),
    s!("{:-.3(bold,bg=blue)}", "{:-.3}", 0, 2),
    s!("{:#.3}", "{:#.3}", 0, 0),
    s!("{:0.3(fg=red)}", "{:0.3}", 0, 1),
    s!("{:<.3(bold,bg=blue)}", "{:<.3}", 0, 2),
    s!("{:^.3}", "{:^.3}", 0, 0),
    s!("{:>.3(fg=red)}", "{:>.3}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)}", "{:>+#0.3}", 0, 2),
    s!("{:1}", "{:1}", 1, 0),
    s!("{:+1(fg=red)}", "{:+1}", 1, 1),
    s!("{:-1(bold,bg=blue)}", "{:-1}", 1, 2),
    s!("{:#1}", "{:#1}", 1, 0),
    s!("{:01(fg=red)}", "{:01}", 1, 1),
    s!("{:<1(bold,bg=blue)}", "{:<1}", 1, 2),
    s!("{:^1}", "{:^1}", 1, 0),
    s!("{:>1(fg=red)}", "{:>1}", 1, 1),
    s!("{:>+#01(bold,bg=blue)}", "{:>+#01}", 1, 2),
    s!("{:1.0}", "{:1.0}", 1, 0),
    s!("{:+1.0(fg=red)}", "{:+1.0}", 1, 1),
    s!("{:-1.0(bold,bg=blue)}", "{:-1.0}", 1, 2),
    s!("{:#1.0}", "{:#1.0}", 1, 0),
    s!("{:01.0(fg=red)}", "{:01.0}", 1, 1),
    s!("{:<1.0(bold,bg=blue)}", "{:<1.0}", 1, 2),
    s!("{:^1.0}", "{:^1.0}", 1, 0),
    s!("{:>1.0(fg=red)}", "{:>1.0}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)}", "{:>+#01.0}", 1, 2),
    s!("{:1.3}", "{:1.3}", 1, 0),
    s!("{:+1.3(fg=red)}", "{:+1.3}", 1, 1),
    s!("{:-1.3(bold,bg=blue)}", "{:-1.3}", 1, 2),
    s!("{:#1.3}", "{:#1.3}", 1, 0),
    s!("{:01.3(fg=red)}", "{:01.3}", 1, 1),
    s!("{:<1.3(bold,bg=blue)}", "{:<1.3}", 1, 2),
    s!("{:^1.3}", "{:^1.3}", 1, 0),
    s!("{:>1.3(fg=red)}", "{:>1.3}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)}", "{:>+#01.3}", 1, 2),
    s!("{:7}", "{:7}", 7, 0),
    s!("{:+7(fg=red)}", "{:+7}", 7, 1),
    s!("{:-7(bold,bg=blue)}", "{:-7}", 7, 2),
    s!("{:#7}", "{:#7}", 7, 0),
    s!("{:07(fg=red)}", "{:07}", 7, 1),
    s!("{:<7(bold,bg=blue)}", "{:<7}", 7, 2),
    s!("{:^7}", "{:^7}", 7, 0),
    s!("{:>7(fg=red)}", "{:>7}", 7, 1),
    s!("{:>+#07(bold,bg=blue)}", "{:>+#07}", 7, 2),
    s!("{:7.0}", "{:7.0}", 7, 0),
    s!("{:+7.0(fg=red)}", "{:+7.0}", 7, 1),
    s!("{:-7.0(bold,bg=blue)}", "{:-7.0}", 7, 2),
    s!("{:#7.0}", "{:#7.0}", 7, 0),
    s!("{:07.0(fg=red)}", "{:07.0}", 7, 1),
    s!("{:<7.0(bold,bg=blue)}", "{:<7.0}", 7, 2),
    s!("{:^7.0}", "{:^7.0}", 7, 0),
    s!("{:>7.0(fg=red)}", "{:>7.0}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)}", "{:>+#07.0}", 7, 2),
    s!("{:7.3}", "{:7.3}", 7, 0),
    s!("{:+7.3(fg=red)}", "{:+7.3}", 7, 1),
    s!("{:-7.3(bold,bg=blue)}", "{:-7.3}", 7, 2),
    s!("{:#7.3}", "{:#7.3}", 7, 0),
    s!("{:07.3(fg=red)}", "{:07.3}", 7, 1),
    s!("{:<7.3(bold,bg=blue)}", "{:<7.3}", 7, 2),
    s!("{:^7.3}", "{:^7.3}", 7, 0),
    s!("{:>7.3(fg=red)}", "{:>7.3}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)}", "{:>+#07.3}", 7, 2),
    s!("{:40}", "{:40}", 40, 0),
    s!("{:+40(fg=red)}", "{:+40}", 40, 1),
    s!("{:-40(bold,bg=blue)}", "{:-40}", 40, 2),
    s!("{:#40}", "{:#40}", 40, 0),
    s!("{:040(fg=red)}", "{:040}", 40, 1),
    s!("{:<40(bold,bg=blue)}", "{:<40}", 40, 2),
    s!("{:^40}", "{:^40}", 40, 0),
    s!("{:>40(fg=red)}", "{:>40}", 40, 1),
    s!("{:>+#040(bold,bg=blue)}", "{:>+#040}", 40, 2),
    s!("{:40.0}", "{:40.0}", 40, 0),
    s!("{:+40.0(fg=red)}", "{:+40.0}", 40, 1),
    s!("{:-40.0(bold,bg=blue)}", "{:-40.0}", 40, 2),
    s!("{:#40.0}", "{:#40.0}", 40, 0),
    s!("{:040.0(fg=red)}", "{:040.0}", 40, 1),
    s!("{:<40.0(bold,bg=blue)}", "{:<40.0}", 40, 2),
    s!("{:^40.0}", "{:^40.0}", 40, 0),
    s!("{:>40.0(fg=red)}", "{:>40.0}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)}", "{:>+#040.0}", 40, 2),
    s!("{:40.3}", "{:40.3}", 40, 0),
    s!("{:+40.3(fg=red)}", "{:+40.3}", 40, 1),
    s!("{:-40.3(bold,bg=blue)}", "{:-40.3}", 40, 2),
    s!("{:#40.3}", "{:#40.3}", 40, 0),
    s!("{:040.3(fg=red)}", "{:040.3}", 40, 1),
    s!("{:<40.3(bold,bg=blue)}", "{:<40.3}", 40, 2),
    s!("{:^40.3}", "{:^40.3}", 40, 0),
    s!("{:>40.3(fg=red)}", "{:>40.3}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)}", "{:>+#040.3}", 40, 2),
    s!("{:300}", "{:300}", 300, 0),
    s!("{:+300(fg=red)}", "{:+300}", 300, 1),
    s!("{:-300(bold,bg=blue)}", "{:-300}", 300, 2),
    s!("{:#300}", "{:#300}", 300, 0),
    s!("{:0300(fg=red)}", "{:0300}", 300, 1),
    s!("{:<300(bold,bg=blue)}", "{:<300}", 300, 2),
    s!("{:^300}", "{:^300}", 300, 0),
    s!("{:>300(fg=red)}", "{:>300}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)}", "{:>+#0300}", 300, 2),
    s!("{:300.0}", "{:300.0}", 300, 0),
    s!("{:+300.0(fg=red)}", "{:+300.0}", 300, 1),
    s!("{:-300.0(bold,bg=blue)}", "{:-300.0}", 300, 2),
    s!("{:#300.0}", "{:#300.0}", 300, 0),
    s!("{:0300.0(fg=red)}", "{:0300.0}", 300, 1),
    s!("{:<300.0(bold,bg=blue)}", "{:<300.0}", 300, 2),
    s!("{:^300.0}", "{:^300.0}", 300, 0),
    s!("{:>300.0(fg=red)}", "{:>300.0}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)}", "{:>+#0300.0}", 300, 2),
    s!("{:300.3}", "{:300.3}", 300, 0),
    s!("{:+300.3(fg=red)}", "{:+300.3}", 300, 1),
    s!("{:-300.3(bold,bg=blue)}", "{:-300.3}", 300, 2),
    s!("{:#300.3}", "{:#300.3}", 300, 0),
    s!("{:0300.3(fg=red)}", "{:0300.3}", 300, 1),
    s!("{:<300.3(bold,bg=blue)}", "{:<300.3}", 300, 2),
    s!("{:^300.3}", "{:^300.3}", 300, 0),
    s!("{:>300.3(fg=red)}", "{:>300.3}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)}", "{:>+#0300.3}", 300, 2),
    s!("{:?}", "{:?}", 0, 0),
    s!("{:+(fg=red)?}", "{:+?}", 0, 1),
    s!("{:-(bold,bg=blue)?}", "{:-?}", 0, 2),
    s!("{:#?}", "{:#?}", 0, 0),
    s!("{:0(fg=red)?}", "{:0?}", 0, 1),
    s!("{:<(bold,bg=blue)?}", "{:<?}", 0, 2),
    s!("{:^?}", "{:^?}", 0, 0),
    s!("{:>(fg=red)?}", "{:>?}", 0, 1),
    s!("{:>+#0(bold,bg=blue)?}", "{:>+#0?}", 0, 2),
    s!("{:.0?}", "{:.0?}", 0, 0),
    s!("{:+.0(fg=red)?}", "{:+.0?}", 0, 1),
    s!("{:-.0(bold,bg=blue)?}", "{:-.0?}", 0, 2),
    s!("{:#.0?}", "{:#.0?}", 0, 0),
    s!("{:0.0(fg=red)?}", "{:0.0?}", 0, 1),
    s!("{:<.0(bold,bg=blue)?}", "{:<.0?}", 0, 2),
    s!("{:^.0?}", "{:^.0?}", 0, 0),
    s!("{:>.0(fg=red)?}", "{:>.0?}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)?}", "{:>+#0.0?}", 0, 2),
    s!("{:.3?}", "{:.3?}", 0, 0),
    s!("{:+.3(fg=red)?}", "{:+.3?}", 0, 1),
    s!("{:-.3(bold,bg=blue)?}", "{:-.3?}", 0, 2),
    s!("{:#.3?}", "{:#.3?}", 0, 0),
    s!("{:0.3(fg=red)?}", "{:0.3?}", 0, 1),
    s!("{:<.3(bold,bg=blue)?}", "{:<.3?}", 0, 2),
    s!("{:^.3?}", "{:^.3?}", 0, 0),
    s!("{:>.3(fg=red)?}", "{:>.3?}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)?}", "{:>+#0.3?}", 0, 2),
    s!("{:1?}", "{:1?}", 1, 0),
    s!("{:+1(fg=red)?}", "{:+1?}", 1, 1),
    s!("{:-1(bold,bg=blue)?}", "{:-1?}", 1, 2),
    s!("{:#1?}", "{:#1?}", 1, 0),
    s!("{:01(fg=red)?}", "{:01?}", 1, 1),
    s!("{:<1(bold,bg=blue)?}", "{:<1?}", 1, 2),
    s!("{:^1?}", "{:^1?}", 1, 0),
    s!("{:>1(fg=red)?}", "{:>1?}", 1, 1),
    s!("{:>+#01(bold,bg=blue)?}", "{:>+#01?}", 1, 2),
    s!("{:1.0?}", "{:1.0?}", 1, 0),
    s!("{:+1.0(fg=red)?}", "{:+1.0?}", 1, 1),
    s!("{:-1.0(bold,bg=blue)?}", "{:-1.0?}", 1, 2),
    s!("{:#1.0?}", "{:#1.0?}", 1, 0),
    s!("{:01.0(fg=red)?}", "{:01.0?}", 1, 1),
    s!("{:<1.0(bold,bg=blue)?}", "{:<1.0?}", 1, 2),
    s!("{:^1.0?}", "{:^1.0?}", 1, 0),
    s!("{:>1.0(fg=red)?}", "{:>1.0?}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)?}", "{:>+#01.0?}", 1, 2),
    s!("{:1.3?}", "{:1.3?}", 1, 0),
    s!("{:+1.3(fg=red)?}", "{:+1.3?}", 1, 1),
    s!("{:-1.3(bold,bg=blue)?}", "{:-1.3?}", 1, 2),
    s!("{:#1.3?}", "{:#1.3?}", 1, 0),
    s!("{:01.3(fg=red)?}", "{:01.3?}", 1, 1),
    s!("{:<1.3(bold,bg=blue)?}", "{:<1.3?}", 1, 2),
    s!("{:^1.3?}", "{:^1.3?}", 1, 0),
    s!("{:>1.3(fg=red)?}", "{:>1.3?}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)?}", "{:>+#01.3?}", 1, 2),
    s!("{:7?}", "{:7?}", 7, 0),
    s!("{:+7(fg=red)?}", "{:+7?}", 7, 1),
    s!("{:-7(bold,bg=blue)?}", "{:-7?}", 7, 2),
    s!("{:#7?}", "{:#7?}", 7, 0),
    s!("{:07(fg=red)?}", "{:07?}", 7, 1),
    s!("{:<7(bold,bg=blue)?}", "{:<7?}", 7, 2),
    s!("{:^7?}", "{:^7?}", 7, 0),
    s!("{:>7(fg=red)?}", "{:>7?}", 7, 1),
    s!("{:>+#07(bold,bg=blue)?}", "{:>+#07?}", 7, 2),
    s!("{:7.0?}", "{:7.0?}", 7, 0),
    s!("{:+7.0(fg=red)?}", "{:+7.0?}", 7, 1),
    s!("{:-7.0(bold,bg=blue)?}", "{:-7.0?}", 7, 2),
    s!("{:#7.0?}", "{:#7.0?}", 7, 0),
    s!("{:07.0(fg=red)?}", "{:07.0?}", 7, 1),
    s!("{:<7.0(bold,bg=blue)?}", "{:<7.0?}", 7, 2),
    s!("{:^7.0?}", "{:^7.0?}", 7, 0),
    s!("{:>7.0(fg=red)?}", "{:>7.0?}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)?}", "{:>+#07.0?}", 7, 2),
    s!("{:7.3?}", "{:7.3?}", 7, 0),
    s!("{:+7.3(fg=red)?}", "{:+7.3?}", 7, 1),
    s!("{:-7.3(bold,bg=blue)?}", "{:-7.3?}", 7, 2),
    s!("{:#7.3?}", "{:#7.3?}", 7, 0),
    s!("{:07.3(fg=red)?}", "{:07.3?}", 7, 1),
    s!("{:<7.3(bold,bg=blue)?}", "{:<7.3?}", 7, 2),
    s!("{:^7.3?}", "{:^7.3?}", 7, 0),
    s!("{:>7.3(fg=red)?}", "{:>7.3?}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)?}", "{:>+#07.3?}", 7, 2),
    s!("{:40?}", "{:40?}", 40, 0),
    s!("{:+40(fg=red)?}", "{:+40?}", 40, 1),
    s!("{:-40(bold,bg=blue)?}", "{:-40?}", 40, 2),
    s!("{:#40?}", "{:#40?}", 40, 0),
    s!("{:040(fg=red)?}", "{:040?}", 40, 1),
    s!("{:<40(bold,bg=blue)?}", "{:<40?}", 40, 2),
    s!("{:^40?}", "{:^40?}", 40, 0),
    s!("{:>40(fg=red)?}", "{:>40?}", 40, 1),
    s!("{:>+#040(bold,bg=blue)?}", "{:>+#040?}", 40, 2),
    s!("{:40.0?}", "{:40.0?}", 40, 0),
    s!("{:+40.0(fg=red)?}", "{:+40.0?}", 40, 1),
    s!("{:-40.0(bold,bg=blue)?}", "{:-40.0?}", 40, 2),
    s!("{:#40.0?}", "{:#40.0?}", 40, 0),
    s!("{:040.0(fg=red)?}", "{:040.0?}", 40, 1),
    s!("{:<40.0(bold,bg=blue)?}", "{:<40.0?}", 40, 2),
    s!("{:^40.0?}", "{:^40.0?}", 40, 0),
    s!("{:>40.0(fg=red)?}", "{:>40.0?}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)?}", "{:>+#040.0?}", 40, 2),
    s!("{:40.3?}", "{:40.3?}", 40, 0),
    s!("{:+40.3(fg=red)?}", "{:+40.3?}", 40, 1),
    s!("{:-40.3(bold,bg=blue)?}", "{:-40.3?}", 40, 2),
    s!("{:#40.3?}", "{:#40.3?}", 40, 0),
    s!("{:040.3(fg=red)?}", "{:040.3?}", 40, 1),
    s!("{:<40.3(bold,bg=blue)?}", "{:<40.3?}", 40, 2),
    s!("{:^40.3?}", "{:^40.3?}", 40, 0),
    s!("{:>40.3(fg=red)?}", "{:>40.3?}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)?}", "{:>+#040.3?}", 40, 2),
    s!("{:300?}", "{:300?}", 300, 0),
    s!("{:+300(fg=red)?}", "{:+300?}", 300, 1),
    s!("{:-300(bold,bg=blue)?}", "{:-300?}", 300, 2),
    s!("{:#300?}", "{:#300?}", 300, 0),
    s!("{:0300(fg=red)?}", "{:0300?}", 300, 1),
    s!("{:<300(bold,bg=blue)?}", "{:<300?}", 300, 2),
    s!("{:^300?}", "{:^300?}", 300, 0),
    s!("{:>300(fg=red)?}", "{:>300?}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)?}", "{:>+#0300?}", 300, 2),
    s!("{:300.0?}", "{:300.0?}", 300, 0),
    s!("{:+300.0(fg=red)?}", "{:+300.0?}", 300, 1),
    s!("{:-300.0(bold,bg=blue)?}", "{:-300.0?}", 300, 2),
    s!("{:#300.0?}", "{:#300.0?}", 300, 0),
    s!("{:0300.0(fg=red)?}", "{:0300.0?}", 300, 1),
    s!("{:<300.0(bold,bg=blue)?}", "{:<300.0?}", 300, 2),
    s!("{:^300.0?}", "{:^300.0?}", 300, 0),
    s!("{:>300.0(fg=red)?}", "{:>300.0?}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)?}", "{:>+#0300.0?}", 300, 2),
    s!("{:300.3?}", "{:300.3?}", 300, 0),
    s!("{:+300.3(fg=red)?}", "{:+300.3?}", 300, 1),
    s!("{:-300.3(bold,bg=blue)?}", "{:-300.3?}", 300, 2),
    s!("{:#300.3?}", "{:#300.3?}", 300, 0),
    s!("{:0300.3(fg=red)?}", "{:0300.3?}", 300, 1),
    s!("{:<300.3(bold,bg=blue)?}", "{:<300.3?}", 300, 2),
    s!("{:^300.3?}", "{:^300.3?}", 300, 0),
    s!("{:>300.3(fg=red)?}", "{:>300.3?}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)?}", "{:>+#0300.3?}", 300, 2),
    s!("{:x?}", "{:x?}", 0, 0),
    s!("{:+(fg=red)x?}", "{:+x?}", 0, 1),
    s!("{:-(bold,bg=blue)x?}", "{:-x?}", 0, 2),
    s!("{:#x?}", "{:#x?}", 0, 0),
    s!("{:0(fg=red)x?}", "{:0x?}", 0, 1),
    s!("{:<(bold,bg=blue)x?}", "{:<x?}", 0, 2),
    s!("{:^x?}", "{:^x?}", 0, 0),
    s!("{:>(fg=red)x?}", "{:>x?}", 0, 1),
    s!("{:>+#0(bold,bg=blue)x?}", "{:>+#0x?}", 0, 2),
    s!("{:.0x?}", "{:.0x?}", 0, 0),
    s!("{:+.0(fg=red)x?}", "{:+.0x?}", 0, 1),
    s!("{:-.0(bold,bg=blue)x?}", "{:-.0x?}", 0, 2),
    s!("{:#.0x?}", "{:#.0x?}", 0, 0),
    s!("{:0.0(fg=red)x?}", "{:0.0x?}", 0, 1),
    s!("{:<.0(bold,bg=blue)x?}", "{:<.0x?}", 0, 2),
    s!("{:^.0x?}", "{:^.0x?}", 0, 0),
    s!("{:>.0(fg=red)x?}", "{:>.0x?}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)x?}", "{:>+#0.0x?}", 0, 2),
    s!("{:.3x?}", "{:.3x?}", 0, 0),
    s!("{:+.3(fg=red)x?}", "{:+.3x?}", 0, 1),
    s!("{:-.3(bold,bg=blue)x?}", "{:-.3x?}", 0, 2),
    s!("{:#.3x?}", "{:#.3x?}", 0, 0),
    s!("{:0.3(fg=red)x?}", "{:0.3x?}", 0, 1),
    s!("{:<.3(bold,bg=blue)x?}", "{:<.3x?}", 0, 2),
    s!("{:^.3x?}", "{:^.3x?}", 0, 0),
    s!("{:>.3(fg=red)x?}", "{:>.3x?}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)x?}", "{:>+#0.3x?}", 0, 2),
    s!("{:1x?}", "{:1x?}", 1, 0),
    s!("{:+1(fg=red)x?}", "{:+1x?}", 1, 1),
    s!("{:-1(bold,bg=blue)x?}", "{:-1x?}", 1, 2),
    s!("{:#1x?}", "{:#1x?}", 1, 0),
    s!("{:01(fg=red)x?}", "{:01x?}", 1, 1),
    s!("{:<1(bold,bg=blue)x?}", "{:<1x?}", 1, 2),
    s!("{:^1x?}", "{:^1x?}", 1, 0),
    s!("{:>1(fg=red)x?}", "{:>1x?}", 1, 1),
    s!("{:>+#01(bold,bg=blue)x?}", "{:>+#01x?}", 1, 2),
    s!("{:1.0x?}", "{:1.0x?}", 1, 0),
    s!("{:+1.0(fg=red)x?}", "{:+1.0x?}", 1, 1),
    s!("{:-1.0(bold,bg=blue)x?}", "{:-1.0x?}", 1, 2),
    s!("{:#1.0x?}", "{:#1.0x?}", 1, 0),
    s!("{:01.0(fg=red)x?}", "{:01.0x?}", 1, 1),
    s!("{:<1.0(bold,bg=blue)x?}", "{:<1.0x?}", 1, 2),
    s!("{:^1.0x?}", "{:^1.0x?}", 1, 0),
    s!("{:>1.0(fg=red)x?}", "{:>1.0x?}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)x?}", "{:>+#01.0x?}", 1, 2),
    s!("{:1.3x?}", "{:1.3x?}", 1, 0),
    s!("{:+1.3(fg=red)x?}", "{:+1.3x?}", 1, 1),
    s!("{:-1.3(bold,bg=blue)x?}", "{:-1.3x?}", 1, 2),
    s!("{:#1.3x?}", "{:#1.3x?}", 1, 0),
    s!("{:01.3(fg=red)x?}", "{:01.3x?}", 1, 1),
    s!("{:<1.3(bold,bg=blue)x?}", "{:<1.3x?}", 1, 2),
    s!("{:^1.3x?}", "{:^1.3x?}", 1, 0),
    s!("{:>1.3(fg=red)x?}", "{:>1.3x?}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)x?}", "{:>+#01.3x?}", 1, 2),
    s!("{:7x?}", "{:7x?}", 7, 0),
    s!("{:+7(fg=red)x?}", "{:+7x?}", 7, 1),
    s!("{:-7(bold,bg=blue)x?}", "{:-7x?}", 7, 2),
    s!("{:#7x?}", "{:#7x?}", 7, 0),
    s!("{:07(fg=red)x?}", "{:07x?}", 7, 1),
    s!("{:<7(bold,bg=blue)x?}", "{:<7x?}", 7, 2),
    s!("{:^7x?}", "{:^7x?}", 7, 0),
    s!("{:>7(fg=red)x?}", "{:>7x?}", 7, 1),
    s!("{:>+#07(bold,bg=blue)x?}", "{:>+#07x?}", 7, 2),
    s!("{:7.0x?}", "{:7.0x?}", 7, 0),
    s!("{:+7.0(fg=red)x?}", "{:+7.0x?}", 7, 1),
    s!("{:-7.0(bold,bg=blue)x?}", "{:-7.0x?}", 7, 2),
    s!("{:#7.0x?}", "{:#7.0x?}", 7, 0),
    s!("{:07.0(fg=red)x?}", "{:07.0x?}", 7, 1),
    s!("{:<7.0(bold,bg=blue)x?}", "{:<7.0x?}", 7, 2),
    s!("{:^7.0x?}", "{:^7.0x?}", 7, 0),
    s!("{:>7.0(fg=red)x?}", "{:>7.0x?}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)x?}", "{:>+#07.0x?}", 7, 2),
    s!("{:7.3x?}", "{:7.3x?}", 7, 0),
    s!("{:+7.3(fg=red)x?}", "{:+7.3x?}", 7, 1),
    s!("{:-7.3(bold,bg=blue)x?}", "{:-7.3x?}", 7, 2),
    s!("{:#7.3x?}", "{:#7.3x?}", 7, 0),
    s!("{:07.3(fg=red)x?}", "{:07.3x?}", 7, 1),
    s!("{:<7.3(bold,bg=blue)x?}", "{:<7.3x?}", 7, 2),
    s!("{:^7.3x?}", "{:^7.3x?}", 7, 0),
    s!("{:>7.3(fg=red)x?}", "{:>7.3x?}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)x?}", "{:>+#07.3x?}", 7, 2),
    s!("{:40x?}", "{:40x?}", 40, 0),
    s!("{:+40(fg=red)x?}", "{:+40x?}", 40, 1),
    s!("{:-40(bold,bg=blue)x?}", "{:-40x?}", 40, 2),
    s!("{:#40x?}", "{:#40x?}", 40, 0),
    s!("{:040(fg=red)x?}", "{:040x?}", 40, 1),
    s!("{:<40(bold,bg=blue)x?}", "{:<40x?}", 40, 2),
    s!("{:^40x?}", "{:^40x?}", 40, 0),
    s!("{:>40(fg=red)x?}", "{:>40x?}", 40, 1),
    s!("{:>+#040(bold,bg=blue)x?}", "{:>+#040x?}", 40, 2),
    s!("{:40.0x?}", "{:40.0x?}", 40, 0),
    s!("{:+40.0(fg=red)x?}", "{:+40.0x?}", 40, 1),
    s!("{:-40.0(bold,bg=blue)x?}", "{:-40.0x?}", 40, 2),
    s!("{:#40.0x?}", "{:#40.0x?}", 40, 0),
    s!("{:040.0(fg=red)x?}", "{:040.0x?}", 40, 1),
    s!("{:<40.0(bold,bg=blue)x?}", "{:<40.0x?}", 40, 2),
    s!("{:^40.0x?}", "{:^40.0x?}", 40, 0),
    s!("{:>40.0(fg=red)x?}", "{:>40.0x?}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)x?}", "{:>+#040.0x?}", 40, 2),
    s!("{:40.3x?}", "{:40.3x?}", 40, 0),
    s!("{:+40.3(fg=red)x?}", "{:+40.3x?}", 40, 1),
    s!("{:-40.3(bold,bg=blue)x?}", "{:-40.3x?}", 40, 2),
    s!("{:#40.3x?}", "{:#40.3x?}", 40, 0),
    s!("{:040.3(fg=red)x?}", "{:040.3x?}", 40, 1),
    s!("{:<40.3(bold,bg=blue)x?}", "{:<40.3x?}", 40, 2),
    s!("{:^40.3x?}", "{:^40.3x?}", 40, 0),
    s!("{:>40.3(fg=red)x?}", "{:>40.3x?}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)x?}", "{:>+#040.3x?}", 40, 2),
    s!("{:300x?}", "{:300x?}", 300, 0),
    s!("{:+300(fg=red)x?}", "{:+300x?}", 300, 1),
    s!("{:-300(bold,bg=blue)x?}", "{:-300x?}", 300, 2),
    s!("{:#300x?}", "{:#300x?}", 300, 0),
    s!("{:0300(fg=red)x?}", "{:0300x?}", 300, 1),
    s!("{:<300(bold,bg=blue)x?}", "{:<300x?}", 300, 2),
    s!("{:^300x?}", "{:^300x?}", 300, 0),
    s!("{:>300(fg=red)x?}", "{:>300x?}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)x?}", "{:>+#0300x?}", 300, 2),
    s!("{:300.0x?}", "{:300.0x?}", 300, 0),
    s!("{:+300.0(fg=red)x?}", "{:+300.0x?}", 300, 1),
    s!("{:-300.0(bold,bg=blue)x?}", "{:-300.0x?}", 300, 2),
    s!("{:#300.0x?}", "{:#300.0x?}", 300, 0),
    s!("{:0300.0(fg=red)x?}", "{:0300.0x?}", 300, 1),
    s!("{:<300.0(bold,bg=blue)x?}", "{:<300.0x?}", 300, 2),
    s!("{:^300.0x?}", "{:^300.0x?}", 300, 0),
    s!("{:>300.0(fg=red)x?}", "{:>300.0x?}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)x?}", "{:>+#0300.0x?}", 300, 2),
    s!("{:300.3x?}", "{:300.3x?}", 300, 0),
    s!("{:+300.3(fg=red)x?}", "{:+300.3x?}", 300, 1),
    s!("{:-300.3(bold,bg=blue)x?}", "{:-300.3x?}", 300, 2),
    s!("{:#300.3x?}", "{:#300.3x?}", 300, 0),
    s!("{:0300.3(fg=red)x?}", "{:0300.3x?}", 300, 1),
    s!("{:<300.3(bold,bg=blue)x?}", "{:<300.3x?}", 300, 2),
    s!("{:^300.3x?}", "{:^300.3x?}", 300, 0),
    s!("{:>300.3(fg=red)x?}", "{:>300.3x?}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)x?}", "{:>+#0300.3x?}", 300, 2),
    s!("{:X?}", "{:X?}", 0, 0),
    s!("{:+(fg=red)X?}", "{:+X?}", 0, 1),
    s!("{:-(bold,bg=blue)X?}", "{:-X?}", 0, 2),
    s!("{:#X?}", "{:#X?}", 0, 0),
    s!("{:0(fg=red)X?}", "{:0X?}", 0, 1),
    s!("{:<(bold,bg=blue)X?}", "{:<X?}", 0, 2),
    s!("{:^X?}", "{:^X?}", 0, 0),
    s!("{:>(fg=red)X?}", "{:>X?}", 0, 1),
    s!("{:>+#0(bold,bg=blue)X?}", "{:>+#0X?}", 0, 2),
    s!("{:.0X?}", "{:.0X?}", 0, 0),
    s!("{:+.0(fg=red)X?}", "{:+.0X?}", 0, 1),
    s!("{:-.0(bold,bg=blue)X?}", "{:-.0X?}", 0, 2),
    s!("{:#.0X?}", "{:#.0X?}", 0, 0),
    s!("{:0.0(fg=red)X?}", "{:0.0X?}", 0, 1),
    s!("{:<.0(bold,bg=blue)X?}", "{:<.0X?}", 0, 2),
    s!("{:^.0X?}", "{:^.0X?}", 0, 0),
    s!("{:>.0(fg=red)X?}", "{:>.0X?}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)X?}", "{:>+#0.0X?}", 0, 2),
    s!("{:.3X?}", "{:.3X?}", 0, 0),
    s!("{:+.3(fg=red)X?}", "{:+.3X?}", 0, 1),
    s!("{:-.3(bold,bg=blue)X?}", "{:-.3X?}", 0, 2),
    s!("{:#.3X?}", "{:#.3X?}", 0, 0),
    s!("{:0.3(fg=red)X?}", "{:0.3X?}", 0, 1),
    s!("{:<.3(bold,bg=blue)X?}", "{:<.3X?}", 0, 2),
    s!("{:^.3X?}", "{:^.3X?}", 0, 0),
    s!("{:>.3(fg=red)X?}", "{:>.3X?}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)X?}", "{:>+#0.3X?}", 0, 2),
    s!("{:1X?}", "{:1X?}", 1, 0),
    s!("{:+1(fg=red)X?}", "{:+1X?}", 1, 1),
    s!("{:-1(bold,bg=blue)X?}", "{:-1X?}", 1, 2),
    s!("{:#1X?}", "{:#1X?}", 1, 0),
    s!("{:01(fg=red)X?}", "{:01X?}", 1, 1),
    s!("{:<1(bold,bg=blue)X?}", "{:<1X?}", 1, 2),
    s!("{:^1X?}", "{:^1X?}", 1, 0),
    s!("{:>1(fg=red)X?}", "{:>1X?}", 1, 1),
    s!("{:>+#01(bold,bg=blue)X?}", "{:>+#01X?}", 1, 2),
    s!("{:1.0X?}", "{:1.0X?}", 1, 0),
    s!("{:+1.0(fg=red)X?}", "{:+1.0X?}", 1, 1),
    s!("{:-1.0(bold,bg=blue)X?}", "{:-1.0X?}", 1, 2),
    s!("{:#1.0X?}", "{:#1.0X?}", 1, 0),
    s!("{:01.0(fg=red)X?}", "{:01.0X?}", 1, 1),
    s!("{:<1.0(bold,bg=blue)X?}", "{:<1.0X?}", 1, 2),
    s!("{:^1.0X?}", "{:^1.0X?}", 1, 0),
    s!("{:>1.0(fg=red)X?}", "{:>1.0X?}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)X?}", "{:>+#01.0X?}", 1, 2),
    s!("{:1.3X?}", "{:1.3X?}", 1, 0),
    s!("{:+1.3(fg=red)X?}", "{:+1.3X?}", 1, 1),
    s!("{:-1.3(bold,bg=blue)X?}", "{:-1.3X?}", 1, 2),
    s!("{:#1.3X?}", "{:#1.3X?}", 1, 0),
    s!("{:01.3(fg=red)X?}", "{:01.3X?}", 1, 1),
    s!("{:<1.3(bold,bg=blue)X?}", "{:<1.3X?}", 1, 2),
    s!("{:^1.3X?}", "{:^1.3X?}", 1, 0),
    s!("{:>1.3(fg=red)X?}", "{:>1.3X?}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)X?}", "{:>+#01.3X?}", 1, 2),
    s!("{:7X?}", "{:7X?}", 7, 0),
    s!("{:+7(fg=red)X?}", "{:+7X?}", 7, 1),
    s!("{:-7(bold,bg=blue)X?}", "{:-7X?}", 7, 2),
    s!("{:#7X?}", "{:#7X?}", 7, 0),
    s!("{:07(fg=red)X?}", "{:07X?}", 7, 1),
    s!("{:<7(bold,bg=blue)X?}", "{:<7X?}", 7, 2),
    s!("{:^7X?}", "{:^7X?}", 7, 0),
    s!("{:>7(fg=red)X?}", "{:>7X?}", 7, 1),
    s!("{:>+#07(bold,bg=blue)X?}", "{:>+#07X?}", 7, 2),
    s!("{:7.0X?}", "{:7.0X?}", 7, 0),
    s!("{:+7.0(fg=red)X?}", "{:+7.0X?}", 7, 1),
    s!("{:-7.0(bold,bg=blue)X?}", "{:-7.0X?}", 7, 2),
    s!("{:#7.0X?}", "{:#7.0X?}", 7, 0),
    s!("{:07.0(fg=red)X?}", "{:07.0X?}", 7, 1),
    s!("{:<7.0(bold,bg=blue)X?}", "{:<7.0X?}", 7, 2),
    s!("{:^7.0X?}", "{:^7.0X?}", 7, 0),
    s!("{:>7.0(fg=red)X?}", "{:>7.0X?}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)X?}", "{:>+#07.0X?}", 7, 2),
    s!("{:7.3X?}", "{:7.3X?}", 7, 0),
    s!("{:+7.3(fg=red)X?}", "{:+7.3X?}", 7, 1),
    s!("{:-7.3(bold,bg=blue)X?}", "{:-7.3X?}", 7, 2),
    s!("{:#7.3X?}", "{:#7.3X?}", 7, 0),
    s!("{:07.3(fg=red)X?}", "{:07.3X?}", 7, 1),
    s!("{:<7.3(bold,bg=blue)X?}", "{:<7.3X?}", 7, 2),
    s!("{:^7.3X?}", "{:^7.3X?}", 7, 0),
    s!("{:>7.3(fg=red)X?}", "{:>7.3X?}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)X?}", "{:>+#07.3X?}", 7, 2),
    s!("{:40X?}", "{:40X?}", 40, 0),
    s!("{:+40(fg=red)X?}", "{:+40X?}", 40, 1),
    s!("{:-40(bold,bg=blue)X?}", "{:-40X?}", 40, 2),
    s!("{:#40X?}", "{:#40X?}", 40, 0),
    s!("{:040(fg=red)X?}", "{:040X?}", 40, 1),
    s!("{:<40(bold,bg=blue)X?}", "{:<40X?}", 40, 2),
    s!("{:^40X?}", "{:^40X?}", 40, 0),
    s!("{:>40(fg=red)X?}", "{:>40X?}", 40, 1),
    s!("{:>+#040(bold,bg=blue)X?}", "{:>+#040X?}", 40, 2),
    s!("{:40.0X?}", "{:40.0X?}", 40, 0),
    s!("{:+40.0(fg=red)X?}", "{:+40.0X?}", 40, 1),
    s!("{:-40.0(bold,bg=blue)X?}", "{:-40.0X?}", 40, 2),
    s!("{:#40.0X?}", "{:#40.0X?}", 40, 0),
    s!("{:040.0(fg=red)X?}", "{:040.0X?}", 40, 1),
    s!("{:<40.0(bold,bg=blue)X?}", "{:<40.0X?}", 40, 2),
    s!("{:^40.0X?}", "{:^40.0X?}", 40, 0),
    s!("{:>40.0(fg=red)X?}", "{:>40.0X?}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)X?}", "{:>+#040.0X?}", 40, 2),
    s!("{:40.3X?}", "{:40.3X?}", 40, 0),
    s!("{:+40.3(fg=red)X?}", "{:+40.3X?}", 40, 1),
    s!("{:-40.3(bold,bg=blue)X?}", "{:-40.3X?}", 40, 2),
    s!("{:#40.3X?}", "{:#40.3X?}", 40, 0),
    s!("{:040.3(fg=red)X?}", "{:040.3X?}", 40, 1),
    s!("{:<40.3(bold,bg=blue)X?}", "{:<40.3X?}", 40, 2),
    s!("{:^40.3X?}", "{:^40.3X?}", 40, 0),
    s!("{:>40.3(fg=red)X?}", "{:>40.3X?}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)X?}", "{:>+#040.3X?}", 40, 2),
    s!("{:300X?}", "{:300X?}", 300, 0),
    s!("{:+300(fg=red)X?}", "{:+300X?}", 300, 1),
    s!("{:-300(bold,bg=blue)X?}", "{:-300X?}", 300, 2),
    s!("{:#300X?}", "{:#300X?}", 300, 0),
    s!("{:0300(fg=red)X?}", "{:0300X?}", 300, 1),
    s!("{:<300(bold,bg=blue)X?}", "{:<300X?}", 300, 2),
    s!("{:^300X?}", "{:^300X?}", 300, 0),
    s!("{:>300(fg=red)X?}", "{:>300X?}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)X?}", "{:>+#0300X?}", 300, 2),
    s!("{:300.0X?}", "{:300.0X?}", 300, 0),
    s!("{:+300.0(fg=red)X?}", "{:+300.0X?}", 300, 1),
    s!("{:-300.0(bold,bg=blue)X?}", "{:-300.0X?}", 300, 2),
    s!("{:#300.0X?}", "{:#300.0X?}", 300, 0),
    s!("{:0300.0(fg=red)X?}", "{:0300.0X?}", 300, 1),
    s!("{:<300.0(bold,bg=blue)X?}", "{:<300.0X?}", 300, 2),
    s!("{:^300.0X?}", "{:^300.0X?}", 300, 0),
    s!("{:>300.0(fg=red)X?}", "{:>300.0X?}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)X?}", "{:>+#0300.0X?}", 300, 2),
    s!("{:300.3X?}", "{:300.3X?}", 300, 0),
    s!("{:+300.3(fg=red)X?}", "{:+300.3X?}", 300, 1),
    s!("{:-300.3(bold,bg=blue)X?}", "{:-300.3X?}", 300, 2),
    s!("{:#300.3X?}", "{:#300.3X?}", 300, 0),
    s!("{:0300.3(fg=red)X?}", "{:0300.3X?}", 300, 1),
    s!("{:<300.3(bold,bg=blue)X?}", "{:<300.3X?}", 300, 2),
    s!("{:^300.3X?}", "{:^300.3X?}", 300, 0),
    s!("{:>300.3(fg=red)X?}", "{:>300.3X?}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)X?}", "{:>+#0300.3X?}", 300, 2),
    s!("{:o}", "{:o}", 0, 0),
    s!("{:+(fg=red)o}", "{:+o}", 0, 1),
    s!("{:-(bold,bg=blue)o}", "{:-o}", 0, 2),
    s!("{:#o}", "{:#o}", 0, 0),
    s!("{:0(fg=red)o}", "{:0o}", 0, 1),
    s!("{:<(bold,bg=blue)o}", "{:<o}", 0, 2),
    s!("{:^o}", "{:^o}", 0, 0),
    s!("{:>(fg=red)o}", "{:>o}", 0, 1),
    s!("{:>+#0(bold,bg=blue)o}", "{:>+#0o}", 0, 2),
    s!("{:.0o}", "{:.0o}", 0, 0),
    s!("{:+.0(fg=red)o}", "{:+.0o}", 0, 1),
    s!("{:-.0(bold,bg=blue)o}", "{:-.0o}", 0, 2),
    s!("{:#.0o}", "{:#.0o}", 0, 0),
    s!("{:0.0(fg=red)o}", "{:0.0o}", 0, 1),
    s!("{:<.0(bold,bg=blue)o}", "{:<.0o}", 0, 2),
    s!("{:^.0o}", "{:^.0o}", 0, 0),
    s!("{:>.0(fg=red)o}", "{:>.0o}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)o}", "{:>+#0.0o}", 0, 2),
    s!("{:.3o}", "{:.3o}", 0, 0),
    s!("{:+.3(fg=red)o}", "{:+.3o}", 0, 1),
    s!("{:-.3(bold,bg=blue)o}", "{:-.3o}", 0, 2),
    s!("{:#.3o}", "{:#.3o}", 0, 0),
    s!("{:0.3(fg=red)o}", "{:0.3o}", 0, 1),
    s!("{:<.3(bold,bg=blue)o}", "{:<.3o}", 0, 2),
    s!("{:^.3o}", "{:^.3o}", 0, 0),
    s!("{:>.3(fg=red)o}", "{:>.3o}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)o}", "{:>+#0.3o}", 0, 2),
    s!("{:1o}", "{:1o}", 1, 0),
    s!("{:+1(fg=red)o}", "{:+1o}", 1, 1),
    s!("{:-1(bold,bg=blue)o}", "{:-1o}", 1, 2),
    s!("{:#1o}", "{:#1o}", 1, 0),
    s!("{:01(fg=red)o}", "{:01o}", 1, 1),
    s!("{:<1(bold,bg=blue)o}", "{:<1o}", 1, 2),
    s!("{:^1o}", "{:^1o}", 1, 0),
    s!("{:>1(fg=red)o}", "{:>1o}", 1, 1),
    s!("{:>+#01(bold,bg=blue)o}", "{:>+#01o}", 1, 2),
    s!("{:1.0o}", "{:1.0o}", 1, 0),
    s!("{:+1.0(fg=red)o}", "{:+1.0o}", 1, 1),
    s!("{:-1.0(bold,bg=blue)o}", "{:-1.0o}", 1, 2),
    s!("{:#1.0o}", "{:#1.0o}", 1, 0),
    s!("{:01.0(fg=red)o}", "{:01.0o}", 1, 1),
    s!("{:<1.0(bold,bg=blue)o}", "{:<1.0o}", 1, 2),
    s!("{:^1.0o}", "{:^1.0o}", 1, 0),
    s!("{:>1.0(fg=red)o}", "{:>1.0o}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)o}", "{:>+#01.0o}", 1, 2),
    s!("{:1.3o}", "{:1.3o}", 1, 0),
    s!("{:+1.3(fg=red)o}", "{:+1.3o}", 1, 1),
    s!("{:-1.3(bold,bg=blue)o}", "{:-1.3o}", 1, 2),
    s!("{:#1.3o}", "{:#1.3o}", 1, 0),
    s!("{:01.3(fg=red)o}", "{:01.3o}", 1, 1),
    s!("{:<1.3(bold,bg=blue)o}", "{:<1.3o}", 1, 2),
    s!("{:^1.3o}", "{:^1.3o}", 1, 0),
    s!("{:>1.3(fg=red)o}", "{:>1.3o}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)o}", "{:>+#01.3o}", 1, 2),
    s!("{:7o}", "{:7o}", 7, 0),
    s!("{:+7(fg=red)o}", "{:+7o}", 7, 1),
    s!("{:-7(bold,bg=blue)o}", "{:-7o}", 7, 2),
    s!("{:#7o}", "{:#7o}", 7, 0),
    s!("{:07(fg=red)o}", "{:07o}", 7, 1),
    s!("{:<7(bold,bg=blue)o}", "{:<7o}", 7, 2),
    s!("{:^7o}", "{:^7o}", 7, 0),
    s!("{:>7(fg=red)o}", "{:>7o}", 7, 1),
    s!("{:>+#07(bold,bg=blue)o}", "{:>+#07o}", 7, 2),
    s!("{:7.0o}", "{:7.0o}", 7, 0),
    s!("{:+7.0(fg=red)o}", "{:+7.0o}", 7, 1),
    s!("{:-7.0(bold,bg=blue)o}", "{:-7.0o}", 7, 2),
    s!("{:#7.0o}", "{:#7.0o}", 7, 0),
    s!("{:07.0(fg=red)o}", "{:07.0o}", 7, 1),
    s!("{:<7.0(bold,bg=blue)o}", "{:<7.0o}", 7, 2),
    s!("{:^7.0o}", "{:^7.0o}", 7, 0),
    s!("{:>7.0(fg=red)o}", "{:>7.0o}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)o}", "{:>+#07.0o}", 7, 2),
    s!("{:7.3o}", "{:7.3o}", 7, 0),
    s!("{:+7.3(fg=red)o}", "{:+7.3o}", 7, 1),
    s!("{:-7.3(bold,bg=blue)o}", "{:-7.3o}", 7, 2),
    s!("{:#7.3o}", "{:#7.3o}", 7, 0),
    s!("{:07.3(fg=red)o}", "{:07.3o}", 7, 1),
    s!("{:<7.3(bold,bg=blue)o}", "{:<7.3o}", 7, 2),
    s!("{:^7.3o}", "{:^7.3o}", 7, 0),
    s!("{:>7.3(fg=red)o}", "{:>7.3o}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)o}", "{:>+#07.3o}", 7, 2),
    s!("{:40o}", "{:40o}", 40, 0),
    s!("{:+40(fg=red)o}", "{:+40o}", 40, 1),
    s!("{:-40(bold,bg=blue)o}", "{:-40o}", 40, 2),
    s!("{:#40o}", "{:#40o}", 40, 0),
    s!("{:040(fg=red)o}", "{:040o}", 40, 1),
    s!("{:<40(bold,bg=blue)o}", "{:<40o}", 40, 2),
    s!("{:^40o}", "{:^40o}", 40, 0),
    s!("{:>40(fg=red)o}", "{:>40o}", 40, 1),
    s!("{:>+#040(bold,bg=blue)o}", "{:>+#040o}", 40, 2),
    s!("{:40.0o}", "{:40.0o}", 40, 0),
    s!("{:+40.0(fg=red)o}", "{:+40.0o}", 40, 1),
    s!("{:-40.0(bold,bg=blue)o}", "{:-40.0o}", 40, 2),
    s!("{:#40.0o}", "{:#40.0o}", 40, 0),
    s!("{:040.0(fg=red)o}", "{:040.0o}", 40, 1),
    s!("{:<40.0(bold,bg=blue)o}", "{:<40.0o}", 40, 2),
    s!("{:^40.0o}", "{:^40.0o}", 40, 0),
    s!("{:>40.0(fg=red)o}", "{:>40.0o}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)o}", "{:>+#040.0o}", 40, 2),
    s!("{:40.3o}", "{:40.3o}", 40, 0),
    s!("{:+40.3(fg=red)o}", "{:+40.3o}", 40, 1),
    s!("{:-40.3(bold,bg=blue)o}", "{:-40.3o}", 40, 2),
    s!("{:#40.3o}", "{:#40.3o}", 40, 0),
    s!("{:040.3(fg=red)o}", "{:040.3o}", 40, 1),
    s!("{:<40.3(bold,bg=blue)o}", "{:<40.3o}", 40, 2),
    s!("{:^40.3o}", "{:^40.3o}", 40, 0),
    s!("{:>40.3(fg=red)o}", "{:>40.3o}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)o}", "{:>+#040.3o}", 40, 2),
    s!("{:300o}", "{:300o}", 300, 0),
    s!("{:+300(fg=red)o}", "{:+300o}", 300, 1),
    s!("{:-300(bold,bg=blue)o}", "{:-300o}", 300, 2),
    s!("{:#300o}", "{:#300o}", 300, 0),
    s!("{:0300(fg=red)o}", "{:0300o}", 300, 1),
    s!("{:<300(bold,bg=blue)o}", "{:<300o}", 300, 2),
    s!("{:^300o}", "{:^300o}", 300, 0),
    s!("{:>300(fg=red)o}", "{:>300o}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)o}", "{:>+#0300o}", 300, 2),
    s!("{:300.0o}", "{:300.0o}", 300, 0),
    s!("{:+300.0(fg=red)o}", "{:+300.0o}", 300, 1),
    s!("{:-300.0(bold,bg=blue)o}", "{:-300.0o}", 300, 2),
    s!("{:#300.0o}", "{:#300.0o}", 300, 0),
    s!("{:0300.0(fg=red)o}", "{:0300.0o}", 300, 1),
    s!("{:<300.0(bold,bg=blue)o}", "{:<300.0o}", 300, 2),
    s!("{:^300.0o}", "{:^300.0o}", 300, 0),
    s!("{:>300.0(fg=red)o}", "{:>300.0o}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)o}", "{:>+#0300.0o}", 300, 2),
    s!("{:300.3o}", "{:300.3o}", 300, 0),
    s!("{:+300.3(fg=red)o}", "{:+300.3o}", 300, 1),
    s!("{:-300.3(bold,bg=blue)o}", "{:-300.3o}", 300, 2),
    s!("{:#300.3o}", "{:#300.3o}", 300, 0),
    s!("{:0300.3(fg=red)o}", "{:0300.3o}", 300, 1),
    s!("{:<300.3(bold,bg=blue)o}", "{:<300.3o}", 300, 2),
    s!("{:^300.3o}", "{:^300.3o}", 300, 0),
    s!("{:>300.3(fg=red)o}", "{:>300.3o}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)o}", "{:>+#0300.3o}", 300, 2),
    s!("{:x}", "{:x}", 0, 0),
    s!("{:+(fg=red)x}", "{:+x}", 0, 1),
    s!("{:-(bold,bg=blue)x}", "{:-x}", 0, 2),
    s!("{:#x}", "{:#x}", 0, 0),
    s!("{:0(fg=red)x}", "{:0x}", 0, 1),
    s!("{:<(bold,bg=blue)x}", "{:<x}", 0, 2),
    s!("{:^x}", "{:^x}", 0, 0),
    s!("{:>(fg=red)x}", "{:>x}", 0, 1),
    s!("{:>+#0(bold,bg=blue)x}", "{:>+#0x}", 0, 2),
    s!("{:.0x}", "{:.0x}", 0, 0),
    s!("{:+.0(fg=red)x}", "{:+.0x}", 0, 1),
    s!("{:-.0(bold,bg=blue)x}", "{:-.0x}", 0, 2),
    s!("{:#.0x}", "{:#.0x}", 0, 0),
    s!("{:0.0(fg=red)x}", "{:0.0x}", 0, 1),
    s!("{:<.0(bold,bg=blue)x}", "{:<.0x}", 0, 2),
    s!("{:^.0x}", "{:^.0x}", 0, 0),
    s!("{:>.0(fg=red)x}", "{:>.0x}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)x}", "{:>+#0.0x}", 0, 2),
    s!("{:.3x}", "{:.3x}", 0, 0),
    s!("{:+.3(fg=red)x}", "{:+.3x}", 0, 1),
    s!("{:-.3(bold,bg=blue)x}", "{:-.3x}", 0, 2),
    s!("{:#.3x}", "{:#.3x}", 0, 0),
    s!("{:0.3(fg=red)x}", "{:0.3x}", 0, 1),
    s!("{:<.3(bold,bg=blue)x}", "{:<.3x}", 0, 2),
    s!("{:^.3x}", "{:^.3x}", 0, 0),
    s!("{:>.3(fg=red)x}", "{:>.3x}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)x}", "{:>+#0.3x}", 0, 2),
    s!("{:1x}", "{:1x}", 1, 0),
    s!("{:+1(fg=red)x}", "{:+1x}", 1, 1),
    s!("{:-1(bold,bg=blue)x}", "{:-1x}", 1, 2),
    s!("{:#1x}", "{:#1x}", 1, 0),
    s!("{:01(fg=red)x}", "{:01x}", 1, 1),
    s!("{:<1(bold,bg=blue)x}", "{:<1x}", 1, 2),
    s!("{:^1x}", "{:^1x}", 1, 0),
    s!("{:>1(fg=red)x}", "{:>1x}", 1, 1),
    s!("{:>+#01(bold,bg=blue)x}", "{:>+#01x}", 1, 2),
    s!("{:1.0x}", "{:1.0x}", 1, 0),
    s!("{:+1.0(fg=red)x}", "{:+1.0x}", 1, 1),
    s!("{:-1.0(bold,bg=blue)x}", "{:-1.0x}", 1, 2),
    s!("{:#1.0x}", "{:#1.0x}", 1, 0),
    s!("{:01.0(fg=red)x}", "{:01.0x}", 1, 1),
    s!("{:<1.0(bold,bg=blue)x}", "{:<1.0x}", 1, 2),
    s!("{:^1.0x}", "{:^1.0x}", 1, 0),
    s!("{:>1.0(fg=red)x}", "{:>1.0x}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)x}", "{:>+#01.0x}", 1, 2),
    s!("{:1.3x}", "{:1.3x}", 1, 0),
    s!("{:+1.3(fg=red)x}", "{:+1.3x}", 1, 1),
    s!("{:-1.3(bold,bg=blue)x}", "{:-1.3x}", 1, 2),
    s!("{:#1.3x}", "{:#1.3x}", 1, 0),
    s!("{:01.3(fg=red)x}", "{:01.3x}", 1, 1),
    s!("{:<1.3(bold,bg=blue)x}", "{:<1.3x}", 1, 2),
    s!("{:^1.3x}", "{:^1.3x}", 1, 0),
    s!("{:>1.3(fg=red)x}", "{:>1.3x}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)x}", "{:>+#01.3x}", 1, 2),
    s!("{:7x}", "{:7x}", 7, 0),
    s!("{:+7(fg=red)x}", "{:+7x}", 7, 1),
    s!("{:-7(bold,bg=blue)x}", "{:-7x}", 7, 2),
    s!("{:#7x}", "{:#7x}", 7, 0),
    s!("{:07(fg=red)x}", "{:07x}", 7, 1),
    s!("{:<7(bold,bg=blue)x}", "{:<7x}", 7, 2),
    s!("{:^7x}", "{:^7x}", 7, 0),
    s!("{:>7(fg=red)x}", "{:>7x}", 7, 1),
    s!("{:>+#07(bold,bg=blue)x}", "{:>+#07x}", 7, 2),
    s!("{:7.0x}", "{:7.0x}", 7, 0),
    s!("{:+7.0(fg=red)x}", "{:+7.0x}", 7, 1),
    s!("{:-7.0(bold,bg=blue)x}", "{:-7.0x}", 7, 2),
    s!("{:#7.0x}", "{:#7.0x}", 7, 0),
    s!("{:07.0(fg=red)x}", "{:07.0x}", 7, 1),
    s!("{:<7.0(bold,bg=blue)x}", "{:<7.0x}", 7, 2),
    s!("{:^7.0x}", "{:^7.0x}", 7, 0),
    s!("{:>7.0(fg=red)x}", "{:>7.0x}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)x}", "{:>+#07.0x}", 7, 2),
    s!("{:7.3x}", "{:7.3x}", 7, 0),
    s!("{:+7.3(fg=red)x}", "{:+7.3x}", 7, 1),
    s!("{:-7.3(bold,bg=blue)x}", "{:-7.3x}", 7, 2),
    s!("{:#7.3x}", "{:#7.3x}", 7, 0),
    s!("{:07.3(fg=red)x}", "{:07.3x}", 7, 1),
    s!("{:<7.3(bold,bg=blue)x}", "{:<7.3x}", 7, 2),
    s!("{:^7.3x}", "{:^7.3x}", 7, 0),
    s!("{:>7.3(fg=red)x}", "{:>7.3x}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)x}", "{:>+#07.3x}", 7, 2),
    s!("{:40x}", "{:40x}", 40, 0),
    s!("{:+40(fg=red)x}", "{:+40x}", 40, 1),
    s!("{:-40(bold,bg=blue)x}", "{:-40x}", 40, 2),
    s!("{:#40x}", "{:#40x}", 40, 0),
    s!("{:040(fg=red)x}", "{:040x}", 40, 1),
    s!("{:<40(bold,bg=blue)x}", "{:<40x}", 40, 2),
    s!("{:^40x}", "{:^40x}", 40, 0),
    s!("{:>40(fg=red)x}", "{:>40x}", 40, 1),
    s!("{:>+#040(bold,bg=blue)x}", "{:>+#040x}", 40, 2),
    s!("{:40.0x}", "{:40.0x}", 40, 0),
    s!("{:+40.0(fg=red)x}", "{:+40.0x}", 40, 1),
    s!("{:-40.0(bold,bg=blue)x}", "{:-40.0x}", 40, 2),
    s!("{:#40.0x}", "{:#40.0x}", 40, 0),
    s!("{:040.0(fg=red)x}", "{:040.0x}", 40, 1),
    s!("{:<40.0(bold,bg=blue)x}", "{:<40.0x}", 40, 2),
    s!("{:^40.0x}", "{:^40.0x}", 40, 0),
    s!("{:>40.0(fg=red)x}", "{:>40.0x}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)x}", "{:>+#040.0x}", 40, 2),
    s!("{:40.3x}", "{:40.3x}", 40, 0),
    s!("{:+40.3(fg=red)x}", "{:+40.3x}", 40, 1),
    s!("{:-40.3(bold,bg=blue)x}", "{:-40.3x}", 40, 2),
    s!("{:#40.3x}", "{:#40.3x}", 40, 0),
    s!("{:040.3(fg=red)x}", "{:040.3x}", 40, 1),
    s!("{:<40.3(bold,bg=blue)x}", "{:<40.3x}", 40, 2),
    s!("{:^40.3x}", "{:^40.3x}", 40, 0),
    s!("{:>40.3(fg=red)x}", "{:>40.3x}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)x}", "{:>+#040.3x}", 40, 2),
    s!("{:300x}", "{:300x}", 300, 0),
    s!("{:+300(fg=red)x}", "{:+300x}", 300, 1),
    s!("{:-300(bold,bg=blue)x}", "{:-300x}", 300, 2),
    s!("{:#300x}", "{:#300x}", 300, 0),
    s!("{:0300(fg=red)x}", "{:0300x}", 300, 1),
    s!("{:<300(bold,bg=blue)x}", "{:<300x}", 300, 2),
    s!("{:^300x}", "{:^300x}", 300, 0),
    s!("{:>300(fg=red)x}", "{:>300x}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)x}", "{:>+#0300x}", 300, 2),
    s!("{:300.0x}", "{:300.0x}", 300, 0),
    s!("{:+300.0(fg=red)x}", "{:+300.0x}", 300, 1),
    s!("{:-300.0(bold,bg=blue)x}", "{:-300.0x}", 300, 2),
    s!("{:#300.0x}", "{:#300.0x}", 300, 0),
    s!("{:0300.0(fg=red)x}", "{:0300.0x}", 300, 1),
    s!("{:<300.0(bold,bg=blue)x}", "{:<300.0x}", 300, 2),
    s!("{:^300.0x}", "{:^300.0x}", 300, 0),
    s!("{:>300.0(fg=red)x}", "{:>300.0x}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)x}", "{:>+#0300.0x}", 300, 2),
    s!("{:300.3x}", "{:300.3x}", 300, 0),
    s!("{:+300.3(fg=red)x}", "{:+300.3x}", 300, 1),
    s!("{:-300.3(bold,bg=blue)x}", "{:-300.3x}", 300, 2),
    s!("{:#300.3x}", "{:#300.3x}", 300, 0),
    s!("{:0300.3(fg=red)x}", "{:0300.3x}", 300, 1),
    s!("{:<300.3(bold,bg=blue)x}", "{:<300.3x}", 300, 2),
    s!("{:^300.3x}", "{:^300.3x}", 300, 0),
    s!("{:>300.3(fg=red)x}", "{:>300.3x}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)x}", "{:>+#0300.3x}", 300, 2),
    s!("{:X}", "{:X}", 0, 0),
    s!("{:+(fg=red)X}", "{:+X}", 0, 1),
    s!("{:-(bold,bg=blue)X}", "{:-X}", 0, 2),
    s!("{:#X}", "{:#X}", 0, 0),
    s!("{:0(fg=red)X}", "{:0X}", 0, 1),
    s!("{:<(bold,bg=blue)X}", "{:<X}", 0, 2),
    s!("{:^X}", "{:^X}", 0, 0),
    s!("{:>(fg=red)X}", "{:>X}", 0, 1),
    s!("{:>+#0(bold,bg=blue)X}", "{:>+#0X}", 0, 2),
    s!("{:.0X}", "{:.0X}", 0, 0),
    s!("{:+.0(fg=red)X}", "{:+.0X}", 0, 1),
    s!("{:-.0(bold,bg=blue)X}", "{:-.0X}", 0, 2),
    s!("{:#.0X}", "{:#.0X}", 0, 0),
    s!("{:0.0(fg=red)X}", "{:0.0X}", 0, 1),
    s!("{:<.0(bold,bg=blue)X}", "{:<.0X}", 0, 2),
    s!("{:^.0X}", "{:^.0X}", 0, 0),
    s!("{:>.0(fg=red)X}", "{:>.0X}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)X}", "{:>+#0.0X}", 0, 2),
    s!("{:.3X}", "{:.3X}", 0, 0),
    s!("{:+.3(fg=red)X}", "{:+.3X}", 0, 1),
    s!("{:-.3(bold,bg=blue)X}", "{:-.3X}", 0, 2),
    s!("{:#.3X}", "{:#.3X}", 0, 0),
    s!("{:0.3(fg=red)X}", "{:0.3X}", 0, 1),
    s!("{:<.3(bold,bg=blue)X}", "{:<.3X}", 0, 2),
    s!("{:^.3X}", "{:^.3X}", 0, 0),
    s!("{:>.3(fg=red)X}", "{:>.3X}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)X}", "{:>+#0.3X}", 0, 2),
    s!("{:1X}", "{:1X}", 1, 0),
    s!("{:+1(fg=red)X}", "{:+1X}", 1, 1),
    s!("{:-1(bold,bg=blue)X}", "{:-1X}", 1, 2),
    s!("{:#1X}", "{:#1X}", 1, 0),
    s!("{:01(fg=red)X}", "{:01X}", 1, 1),
    s!("{:<1(bold,bg=blue)X}", "{:<1X}", 1, 2),
    s!("{:^1X}", "{:^1X}", 1, 0),
    s!("{:>1(fg=red)X}", "{:>1X}", 1, 1),
    s!("{:>+#01(bold,bg=blue)X}", "{:>+#01X}", 1, 2),
    s!("{:1.0X}", "{:1.0X}", 1, 0),
    s!("{:+1.0(fg=red)X}", "{:+1.0X}", 1, 1),
    s!("{:-1.0(bold,bg=blue)X}", "{:-1.0X}", 1, 2),
    s!("{:#1.0X}", "{:#1.0X}", 1, 0),
    s!("{:01.0(fg=red)X}", "{:01.0X}", 1, 1),
    s!("{:<1.0(bold,bg=blue)X}", "{:<1.0X}", 1, 2),
    s!("{:^1.0X}", "{:^1.0X}", 1, 0),
    s!("{:>1.0(fg=red)X}", "{:>1.0X}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)X}", "{:>+#01.0X}", 1, 2),
    s!("{:1.3X}", "{:1.3X}", 1, 0),
    s!("{:+1.3(fg=red)X}", "{:+1.3X}", 1, 1),
    s!("{:-1.3(bold,bg=blue)X}", "{:-1.3X}", 1, 2),
    s!("{:#1.3X}", "{:#1.3X}", 1, 0),
    s!("{:01.3(fg=red)X}", "{:01.3X}", 1, 1),
    s!("{:<1.3(bold,bg=blue)X}", "{:<1.3X}", 1, 2),
    s!("{:^1.3X}", "{:^1.3X}", 1, 0),
    s!("{:>1.3(fg=red)X}", "{:>1.3X}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)X}", "{:>+#01.3X}", 1, 2),
    s!("{:7X}", "{:7X}", 7, 0),
    s!("{:+7(fg=red)X}", "{:+7X}", 7, 1),
    s!("{:-7(bold,bg=blue)X}", "{:-7X}", 7, 2),
    s!("{:#7X}", "{:#7X}", 7, 0),
    s!("{:07(fg=red)X}", "{:07X}", 7, 1),
    s!("{:<7(bold,bg=blue)X}", "{:<7X}", 7, 2),
    s!("{:^7X}", "{:^7X}", 7, 0),
    s!("{:>7(fg=red)X}", "{:>7X}", 7, 1),
    s!("{:>+#07(bold,bg=blue)X}", "{:>+#07X}", 7, 2),
    s!("{:7.0X}", "{:7.0X}", 7, 0),
    s!("{:+7.0(fg=red)X}", "{:+7.0X}", 7, 1),
    s!("{:-7.0(bold,bg=blue)X}", "{:-7.0X}", 7, 2),
    s!("{:#7.0X}", "{:#7.0X}", 7, 0),
    s!("{:07.0(fg=red)X}", "{:07.0X}", 7, 1),
    s!("{:<7.0(bold,bg=blue)X}", "{:<7.0X}", 7, 2),
    s!("{:^7.0X}", "{:^7.0X}", 7, 0),
    s!("{:>7.0(fg=red)X}", "{:>7.0X}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)X}", "{:>+#07.0X}", 7, 2),
    s!("{:7.3X}", "{:7.3X}", 7, 0),
    s!("{:+7.3(fg=red)X}", "{:+7.3X}", 7, 1),
    s!("{:-7.3(bold,bg=blue)X}", "{:-7.3X}", 7, 2),
    s!("{:#7.3X}", "{:#7.3X}", 7, 0),
    s!("{:07.3(fg=red)X}", "{:07.3X}", 7, 1),
    s!("{:<7.3(bold,bg=blue)X}", "{:<7.3X}", 7, 2),
    s!("{:^7.3X}", "{:^7.3X}", 7, 0),
    s!("{:>7.3(fg=red)X}", "{:>7.3X}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)X}", "{:>+#07.3X}", 7, 2),
    s!("{:40X}", "{:40X}", 40, 0),
    s!("{:+40(fg=red)X}", "{:+40X}", 40, 1),
    s!("{:-40(bold,bg=blue)X}", "{:-40X}", 40, 2),
    s!("{:#40X}", "{:#40X}", 40, 0),
    s!("{:040(fg=red)X}", "{:040X}", 40, 1),
    s!("{:<40(bold,bg=blue)X}", "{:<40X}", 40, 2),
    s!("{:^40X}", "{:^40X}", 40, 0),
    s!("{:>40(fg=red)X}", "{:>40X}", 40, 1),
    s!("{:>+#040(bold,bg=blue)X}", "{:>+#040X}", 40, 2),
    s!("{:40.0X}", "{:40.0X}", 40, 0),
    s!("{:+40.0(fg=red)X}", "{:+40.0X}", 40, 1),
    s!("{:-40.0(bold,bg=blue)X}", "{:-40.0X}", 40, 2),
    s!("{:#40.0X}", "{:#40.0X}", 40, 0),
    s!("{:040.0(fg=red)X}", "{:040.0X}", 40, 1),
    s!("{:<40.0(bold,bg=blue)X}", "{:<40.0X}", 40, 2),
    s!("{:^40.0X}", "{:^40.0X}", 40, 0),
    s!("{:>40.0(fg=red)X}", "{:>40.0X}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)X}", "{:>+#040.0X}", 40, 2),
    s!("{:40.3X}", "{:40.3X}", 40, 0),
    s!("{:+40.3(fg=red)X}", "{:+40.3X}", 40, 1),
    s!("{:-40.3(bold,bg=blue)X}", "{:-40.3X}", 40, 2),
    s!("{:#40.3X}", "{:#40.3X}", 40, 0),
    s!("{:040.3(fg=red)X}", "{:040.3X}", 40, 1),
    s!("{:<40.3(bold,bg=blue)X}", "{:<40.3X}", 40, 2),
    s!("{:^40.3X}", "{:^40.3X}", 40, 0),
    s!("{:>40.3(fg=red)X}", "{:>40.3X}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)X}", "{:>+#040.3X}", 40, 2),
    s!("{:300X}", "{:300X}", 300, 0),
    s!("{:+300(fg=red)X}", "{:+300X}", 300, 1),
    s!("{:-300(bold,bg=blue)X}", "{:-300X}", 300, 2),
    s!("{:#300X}", "{:#300X}", 300, 0),
    s!("{:0300(fg=red)X}", "{:0300X}", 300, 1),
    s!("{:<300(bold,bg=blue)X}", "{:<300X}", 300, 2),
    s!("{:^300X}", "{:^300X}", 300, 0),
    s!("{:>300(fg=red)X}", "{:>300X}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)X}", "{:>+#0300X}", 300, 2),
    s!("{:300.0X}", "{:300.0X}", 300, 0),
    s!("{:+300.0(fg=red)X}", "{:+300.0X}", 300, 1),
    s!("{:-300.0(bold,bg=blue)X}", "{:-300.0X}", 300, 2),
    s!("{:#300.0X}", "{:#300.0X}", 300, 0),
    s!("{:0300.0(fg=red)X}", "{:0300.0X}", 300, 1),
    s!("{:<300.0(bold,bg=blue)X}", "{:<300.0X}", 300, 2),
    s!("{:^300.0X}", "{:^300.0X}", 300, 0),
    s!("{:>300.0(fg=red)X}", "{:>300.0X}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)X}", "{:>+#0300.0X}", 300, 2),
    s!("{:300.3X}", "{:300.3X}", 300, 0),
    s!("{:+300.3(fg=red)X}", "{:+300.3X}", 300, 1),
    s!("{:-300.3(bold,bg=blue)X}", "{:-300.3X}", 300, 2),
    s!("{:#300.3X}", "{:#300.3X}", 300, 0),
    s!("{:0300.3(fg=red)X}", "{:0300.3X}", 300, 1),
    s!("{:<300.3(bold,bg=blue)X}", "{:<300.3X}", 300, 2),
    s!("{:^300.3X}", "{:^300.3X}", 300, 0),
    s!("{:>300.3(fg=red)X}", "{:>300.3X}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)X}", "{:>+#0300.3X}", 300, 2),
    s!("{:p}", "{:p}", 0, 0),
    s!("{:+(fg=red)p}", "{:+p}", 0, 1),
    s!("{:-(bold,bg=blue)p}", "{:-p}", 0, 2),
    s!("{:#p}", "{:#p}", 0, 0),
    s!("{:0(fg=red)p}", "{:0p}", 0, 1),
    s!("{:<(bold,bg=blue)p}", "{:<p}", 0, 2),
    s!("{:^p}", "{:^p}", 0, 0),
    s!("{:>(fg=red)p}", "{:>p}", 0, 1),
    s!("{:>+#0(bold,bg=blue)p}", "{:>+#0p}", 0, 2),
    s!("{:.0p}", "{:.0p}", 0, 0),
    s!("{:+.0(fg=red)p}", "{:+.0p}", 0, 1),
    s!("{:-.0(bold,bg=blue)p}", "{:-.0p}", 0, 2),
    s!("{:#.0p}", "{:#.0p}", 0, 0),
    s!("{:0.0(fg=red)p}", "{:0.0p}", 0, 1),
    s!("{:<.0(bold,bg=blue)p}", "{:<.0p}", 0, 2),
    s!("{:^.0p}", "{:^.0p}", 0, 0),
    s!("{:>.0(fg=red)p}", "{:>.0p}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)p}", "{:>+#0.0p}", 0, 2),
    s!("{:.3p}", "{:.3p}", 0, 0),
    s!("{:+.3(fg=red)p}", "{:+.3p}", 0, 1),
    s!("{:-.3(bold,bg=blue)p}", "{:-.3p}", 0, 2),
    s!("{:#.3p}", "{:#.3p}", 0, 0),
    s!("{:0.3(fg=red)p}", "{:0.3p}", 0, 1),
    s!("{:<.3(bold,bg=blue)p}", "{:<.3p}", 0, 2),
    s!("{:^.3p}", "{:^.3p}", 0, 0),
    s!("{:>.3(fg=red)p}", "{:>.3p}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)p}", "{:>+#0.3p}", 0, 2),
    s!("{:1p}", "{:1p}", 1, 0),
    s!("{:+1(fg=red)p}", "{:+1p}", 1, 1),
    s!("{:-1(bold,bg=blue)p}", "{:-1p}", 1, 2),
    s!("{:#1p}", "{:#1p}", 1, 0),
    s!("{:01(fg=red)p}", "{:01p}", 1, 1),
    s!("{:<1(bold,bg=blue)p}", "{:<1p}", 1, 2),
    s!("{:^1p}", "{:^1p}", 1, 0),
    s!("{:>1(fg=red)p}", "{:>1p}", 1, 1),
    s!("{:>+#01(bold,bg=blue)p}", "{:>+#01p}", 1, 2),
    s!("{:1.0p}", "{:1.0p}", 1, 0),
    s!("{:+1.0(fg=red)p}", "{:+1.0p}", 1, 1),
    s!("{:-1.0(bold,bg=blue)p}", "{:-1.0p}", 1, 2),
    s!("{:#1.0p}", "{:#1.0p}", 1, 0),
    s!("{:01.0(fg=red)p}", "{:01.0p}", 1, 1),
    s!("{:<1.0(bold,bg=blue)p}", "{:<1.0p}", 1, 2),
    s!("{:^1.0p}", "{:^1.0p}", 1, 0),
    s!("{:>1.0(fg=red)p}", "{:>1.0p}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)p}", "{:>+#01.0p}", 1, 2),
    s!("{:1.3p}", "{:1.3p}", 1, 0),
    s!("{:+1.3(fg=red)p}", "{:+1.3p}", 1, 1),
    s!("{:-1.3(bold,bg=blue)p}", "{:-1.3p}", 1, 2),
    s!("{:#1.3p}", "{:#1.3p}", 1, 0),
    s!("{:01.3(fg=red)p}", "{:01.3p}", 1, 1),
    s!("{:<1.3(bold,bg=blue)p}", "{:<1.3p}", 1, 2),
    s!("{:^1.3p}", "{:^1.3p}", 1, 0),
    s!("{:>1.3(fg=red)p}", "{:>1.3p}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)p}", "{:>+#01.3p}", 1, 2),
    s!("{:7p}", "{:7p}", 7, 0),
    s!("{:+7(fg=red)p}", "{:+7p}", 7, 1),
    s!("{:-7(bold,bg=blue)p}", "{:-7p}", 7, 2),
    s!("{:#7p}", "{:#7p}", 7, 0),
    s!("{:07(fg=red)p}", "{:07p}", 7, 1),
    s!("{:<7(bold,bg=blue)p}", "{:<7p}", 7, 2),
    s!("{:^7p}", "{:^7p}", 7, 0),
    s!("{:>7(fg=red)p}", "{:>7p}", 7, 1),
    s!("{:>+#07(bold,bg=blue)p}", "{:>+#07p}", 7, 2),
    s!("{:7.0p}", "{:7.0p}", 7, 0),
    s!("{:+7.0(fg=red)p}", "{:+7.0p}", 7, 1),
    s!("{:-7.0(bold,bg=blue)p}", "{:-7.0p}", 7, 2),
    s!("{:#7.0p}", "{:#7.0p}", 7, 0),
    s!("{:07.0(fg=red)p}", "{:07.0p}", 7, 1),
    s!("{:<7.0(bold,bg=blue)p}", "{:<7.0p}", 7, 2),
    s!("{:^7.0p}", "{:^7.0p}", 7, 0),
    s!("{:>7.0(fg=red)p}", "{:>7.0p}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)p}", "{:>+#07.0p}", 7, 2),
    s!("{:7.3p}", "{:7.3p}", 7, 0),
    s!("{:+7.3(fg=red)p}", "{:+7.3p}", 7, 1),
    s!("{:-7.3(bold,bg=blue)p}", "{:-7.3p}", 7, 2),
    s!("{:#7.3p}", "{:#7.3p}", 7, 0),
    s!("{:07.3(fg=red)p}", "{:07.3p}", 7, 1),
    s!("{:<7.3(bold,bg=blue)p}", "{:<7.3p}", 7, 2),
    s!("{:^7.3p}", "{:^7.3p}", 7, 0),
    s!("{:>7.3(fg=red)p}", "{:>7.3p}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)p}", "{:>+#07.3p}", 7, 2),
    s!("{:40p}", "{:40p}", 40, 0),
    s!("{:+40(fg=red)p}", "{:+40p}", 40, 1),
    s!("{:-40(bold,bg=blue)p}", "{:-40p}", 40, 2),
    s!("{:#40p}", "{:#40p}", 40, 0),
    s!("{:040(fg=red)p}", "{:040p}", 40, 1),
    s!("{:<40(bold,bg=blue)p}", "{:<40p}", 40, 2),
    s!("{:^40p}", "{:^40p}", 40, 0),
    s!("{:>40(fg=red)p}", "{:>40p}", 40, 1),
    s!("{:>+#040(bold,bg=blue)p}", "{:>+#040p}", 40, 2),
    s!("{:40.0p}", "{:40.0p}", 40, 0),
    s!("{:+40.0(fg=red)p}", "{:+40.0p}", 40, 1),
    s!("{:-40.0(bold,bg=blue)p}", "{:-40.0p}", 40, 2),
    s!("{:#40.0p}", "{:#40.0p}", 40, 0),
    s!("{:040.0(fg=red)p}", "{:040.0p}", 40, 1),
    s!("{:<40.0(bold,bg=blue)p}", "{:<40.0p}", 40, 2),
    s!("{:^40.0p}", "{:^40.0p}", 40, 0),
    s!("{:>40.0(fg=red)p}", "{:>40.0p}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)p}", "{:>+#040.0p}", 40, 2),
    s!("{:40.3p}", "{:40.3p}", 40, 0),
    s!("{:+40.3(fg=red)p}", "{:+40.3p}", 40, 1),
    s!("{:-40.3(bold,bg=blue)p}", "{:-40.3p}", 40, 2),
    s!("{:#40.3p}", "{:#40.3p}", 40, 0),
    s!("{:040.3(fg=red)p}", "{:040.3p}", 40, 1),
    s!("{:<40.3(bold,bg=blue)p}", "{:<40.3p}", 40, 2),
    s!("{:^40.3p}", "{:^40.3p}", 40, 0),
    s!("{:>40.3(fg=red)p}", "{:>40.3p}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)p}", "{:>+#040.3p}", 40, 2),
    s!("{:300p}", "{:300p}", 300, 0),
    s!("{:+300(fg=red)p}", "{:+300p}", 300, 1),
    s!("{:-300(bold,bg=blue)p}", "{:-300p}", 300, 2),
    s!("{:#300p}", "{:#300p}", 300, 0),
    s!("{:0300(fg=red)p}", "{:0300p}", 300, 1),
    s!("{:<300(bold,bg=blue)p}", "{:<300p}", 300, 2),
    s!("{:^300p}", "{:^300p}", 300, 0),
    s!("{:>300(fg=red)p}", "{:>300p}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)p}", "{:>+#0300p}", 300, 2),
    s!("{:300.0p}", "{:300.0p}", 300, 0),
    s!("{:+300.0(fg=red)p}", "{:+300.0p}", 300, 1),
    s!("{:-300.0(bold,bg=blue)p}", "{:-300.0p}", 300, 2),
    s!("{:#300.0p}", "{:#300.0p}", 300, 0),
    s!("{:0300.0(fg=red)p}", "{:0300.0p}", 300, 1),
    s!("{:<300.0(bold,bg=blue)p}", "{:<300.0p}", 300, 2),
    s!("{:^300.0p}", "{:^300.0p}", 300, 0),
    s!("{:>300.0(fg=red)p}", "{:>300.0p}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)p}", "{:>+#0300.0p}", 300, 2),
    s!("{:300.3p}", "{:300.3p}", 300, 0),
    s!("{:+300.3(fg=red)p}", "{:+300.3p}", 300, 1),
    s!("{:-300.3(bold,bg=blue)p}", "{:-300.3p}", 300, 2),
    s!("{:#300.3p}", "{:#300.3p}", 300, 0),
    s!("{:0300.3(fg=red)p}", "{:0300.3p}", 300, 1),
    s!("{:<300.3(bold,bg=blue)p}", "{:<300.3p}", 300, 2),
    s!("{:^300.3p}", "{:^300.3p}", 300, 0),
    s!("{:>300.3(fg=red)p}", "{:>300.3p}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)p}", "{:>+#0300.3p}", 300, 2),
    s!("{:b}", "{:b}", 0, 0),
    s!("{:+(fg=red)b}", "{:+b}", 0, 1),
    s!("{:-(bold,bg=blue)b}", "{:-b}", 0, 2),
    s!("{:#b}", "{:#b}", 0, 0),
    s!("{:0(fg=red)b}", "{:0b}", 0, 1),
    s!("{:<(bold,bg=blue)b}", "{:<b}", 0, 2),
    s!("{:^b}", "{:^b}", 0, 0),
    s!("{:>(fg=red)b}", "{:>b}", 0, 1),
    s!("{:>+#0(bold,bg=blue)b}", "{:>+#0b}", 0, 2),
    s!("{:.0b}", "{:.0b}", 0, 0),
    s!("{:+.0(fg=red)b}", "{:+.0b}", 0, 1),
    s!("{:-.0(bold,bg=blue)b}", "{:-.0b}", 0, 2),
    s!("{:#.0b}", "{:#.0b}", 0, 0),
    s!("{:0.0(fg=red)b}", "{:0.0b}", 0, 1),
    s!("{:<.0(bold,bg=blue)b}", "{:<.0b}", 0, 2),
    s!("{:^.0b}", "{:^.0b}", 0, 0),
    s!("{:>.0(fg=red)b}", "{:>.0b}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)b}", "{:>+#0.0b}", 0, 2),
    s!("{:.3b}", "{:.3b}", 0, 0),
    s!("{:+.3(fg=red)b}", "{:+.3b}", 0, 1),
    s!("{:-.3(bold,bg=blue)b}", "{:-.3b}", 0, 2),
    s!("{:#.3b}", "{:#.3b}", 0, 0),
    s!("{:0.3(fg=red)b}", "{:0.3b}", 0, 1),
    s!("{:<.3(bold,bg=blue)b}", "{:<.3b}", 0, 2),
    s!("{:^.3b}", "{:^.3b}", 0, 0),
    s!("{:>.3(fg=red)b}", "{:>.3b}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)b}", "{:>+#0.3b}", 0, 2),
    s!("{:1b}", "{:1b}", 1, 0),
    s!("{:+1(fg=red)b}", "{:+1b}", 1, 1),
    s!("{:-1(bold,bg=blue)b}", "{:-1b}", 1, 2),
    s!("{:#1b}", "{:#1b}", 1, 0),
    s!("{:01(fg=red)b}", "{:01b}", 1, 1),
    s!("{:<1(bold,bg=blue)b}", "{:<1b}", 1, 2),
    s!("{:^1b}", "{:^1b}", 1, 0),
    s!("{:>1(fg=red)b}", "{:>1b}", 1, 1),
    s!("{:>+#01(bold,bg=blue)b}", "{:>+#01b}", 1, 2),
    s!("{:1.0b}", "{:1.0b}", 1, 0),
    s!("{:+1.0(fg=red)b}", "{:+1.0b}", 1, 1),
    s!("{:-1.0(bold,bg=blue)b}", "{:-1.0b}", 1, 2),
    s!("{:#1.0b}", "{:#1.0b}", 1, 0),
    s!("{:01.0(fg=red)b}", "{:01.0b}", 1, 1),
    s!("{:<1.0(bold,bg=blue)b}", "{:<1.0b}", 1, 2),
    s!("{:^1.0b}", "{:^1.0b}", 1, 0),
    s!("{:>1.0(fg=red)b}", "{:>1.0b}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)b}", "{:>+#01.0b}", 1, 2),
    s!("{:1.3b}", "{:1.3b}", 1, 0),
    s!("{:+1.3(fg=red)b}", "{:+1.3b}", 1, 1),
    s!("{:-1.3(bold,bg=blue)b}", "{:-1.3b}", 1, 2),
    s!("{:#1.3b}", "{:#1.3b}", 1, 0),
    s!("{:01.3(fg=red)b}", "{:01.3b}", 1, 1),
    s!("{:<1.3(bold,bg=blue)b}", "{:<1.3b}", 1, 2),
    s!("{:^1.3b}", "{:^1.3b}", 1, 0),
    s!("{:>1.3(fg=red)b}", "{:>1.3b}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)b}", "{:>+#01.3b}", 1, 2),
    s!("{:7b}", "{:7b}", 7, 0),
    s!("{:+7(fg=red)b}", "{:+7b}", 7, 1),
    s!("{:-7(bold,bg=blue)b}", "{:-7b}", 7, 2),
    s!("{:#7b}", "{:#7b}", 7, 0),
    s!("{:07(fg=red)b}", "{:07b}", 7, 1),
    s!("{:<7(bold,bg=blue)b}", "{:<7b}", 7, 2),
    s!("{:^7b}", "{:^7b}", 7, 0),
    s!("{:>7(fg=red)b}", "{:>7b}", 7, 1),
    s!("{:>+#07(bold,bg=blue)b}", "{:>+#07b}", 7, 2),
    s!("{:7.0b}", "{:7.0b}", 7, 0),
    s!("{:+7.0(fg=red)b}", "{:+7.0b}", 7, 1),
    s!("{:-7.0(bold,bg=blue)b}", "{:-7.0b}", 7, 2),
    s!("{:#7.0b}", "{:#7.0b}", 7, 0),
    s!("{:07.0(fg=red)b}", "{:07.0b}", 7, 1),
    s!("{:<7.0(bold,bg=blue)b}", "{:<7.0b}", 7, 2),
    s!("{:^7.0b}", "{:^7.0b}", 7, 0),
    s!("{:>7.0(fg=red)b}", "{:>7.0b}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)b}", "{:>+#07.0b}", 7, 2),
    s!("{:7.3b}", "{:7.3b}", 7, 0),
    s!("{:+7.3(fg=red)b}", "{:+7.3b}", 7, 1),
    s!("{:-7.3(bold,bg=blue)b}", "{:-7.3b}", 7, 2),
    s!("{:#7.3b}", "{:#7.3b}", 7, 0),
    s!("{:07.3(fg=red)b}", "{:07.3b}", 7, 1),
    s!("{:<7.3(bold,bg=blue)b}", "{:<7.3b}", 7, 2),
    s!("{:^7.3b}", "{:^7.3b}", 7, 0),
    s!("{:>7.3(fg=red)b}", "{:>7.3b}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)b}", "{:>+#07.3b}", 7, 2),
    s!("{:40b}", "{:40b}", 40, 0),
    s!("{:+40(fg=red)b}", "{:+40b}", 40, 1),
    s!("{:-40(bold,bg=blue)b}", "{:-40b}", 40, 2),
    s!("{:#40b}", "{:#40b}", 40, 0),
    s!("{:040(fg=red)b}", "{:040b}", 40, 1),
    s!("{:<40(bold,bg=blue)b}", "{:<40b}", 40, 2),
    s!("{:^40b}", "{:^40b}", 40, 0),
    s!("{:>40(fg=red)b}", "{:>40b}", 40, 1),
    s!("{:>+#040(bold,bg=blue)b}", "{:>+#040b}", 40, 2),
    s!("{:40.0b}", "{:40.0b}", 40, 0),
    s!("{:+40.0(fg=red)b}", "{:+40.0b}", 40, 1),
    s!("{:-40.0(bold,bg=blue)b}", "{:-40.0b}", 40, 2),
    s!("{:#40.0b}", "{:#40.0b}", 40, 0),
    s!("{:040.0(fg=red)b}", "{:040.0b}", 40, 1),
    s!("{:<40.0(bold,bg=blue)b}", "{:<40.0b}", 40, 2),
    s!("{:^40.0b}", "{:^40.0b}", 40, 0),
    s!("{:>40.0(fg=red)b}", "{:>40.0b}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)b}", "{:>+#040.0b}", 40, 2),
    s!("{:40.3b}", "{:40.3b}", 40, 0),
    s!("{:+40.3(fg=red)b}", "{:+40.3b}", 40, 1),
    s!("{:-40.3(bold,bg=blue)b}", "{:-40.3b}", 40, 2),
    s!("{:#40.3b}", "{:#40.3b}", 40, 0),
    s!("{:040.3(fg=red)b}", "{:040.3b}", 40, 1),
    s!("{:<40.3(bold,bg=blue)b}", "{:<40.3b}", 40, 2),
    s!("{:^40.3b}", "{:^40.3b}", 40, 0),
    s!("{:>40.3(fg=red)b}", "{:>40.3b}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)b}", "{:>+#040.3b}", 40, 2),
    s!("{:300b}", "{:300b}", 300, 0),
    s!("{:+300(fg=red)b}", "{:+300b}", 300, 1),
    s!("{:-300(bold,bg=blue)b}", "{:-300b}", 300, 2),
    s!("{:#300b}", "{:#300b}", 300, 0),
    s!("{:0300(fg=red)b}", "{:0300b}", 300, 1),
    s!("{:<300(bold,bg=blue)b}", "{:<300b}", 300, 2),
    s!("{:^300b}", "{:^300b}", 300, 0),
    s!("{:>300(fg=red)b}", "{:>300b}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)b}", "{:>+#0300b}", 300, 2),
    s!("{:300.0b}", "{:300.0b}", 300, 0),
    s!("{:+300.0(fg=red)b}", "{:+300.0b}", 300, 1),
    s!("{:-300.0(bold,bg=blue)b}", "{:-300.0b}", 300, 2),
    s!("{:#300.0b}", "{:#300.0b}", 300, 0),
    s!("{:0300.0(fg=red)b}", "{:0300.0b}", 300, 1),
    s!("{:<300.0(bold,bg=blue)b}", "{:<300.0b}", 300, 2),
    s!("{:^300.0b}", "{:^300.0b}", 300, 0),
    s!("{:>300.0(fg=red)b}", "{:>300.0b}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)b}", "{:>+#0300.0b}", 300, 2),
    s!("{:300.3b}", "{:300.3b}", 300, 0),
    s!("{:+300.3(fg=red)b}", "{:+300.3b}", 300, 1),
    s!("{:-300.3(bold,bg=blue)b}", "{:-300.3b}", 300, 2),
    s!("{:#300.3b}", "{:#300.3b}", 300, 0),
    s!("{:0300.3(fg=red)b}", "{:0300.3b}", 300, 1),
    s!("{:<300.3(bold,bg=blue)b}", "{:<300.3b}", 300, 2),
    s!("{:^300.3b}", "{:^300.3b}", 300, 0),
    s!("{:>300.3(fg=red)b}", "{:>300.3b}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)b}", "{:>+#0300.3b}", 300, 2),
    s!("{:e}", "{:e}", 0, 0),
    s!("{:+(fg=red)e}", "{:+e}", 0, 1),
    s!("{:-(bold,bg=blue)e}", "{:-e}", 0, 2),
    s!("{:#e}", "{:#e}", 0, 0),
    s!("{:0(fg=red)e}", "{:0e}", 0, 1),
    s!("{:<(bold,bg=blue)e}", "{:<e}", 0, 2),
    s!("{:^e}", "{:^e}", 0, 0),
    s!("{:>(fg=red)e}", "{:>e}", 0, 1),
    s!("{:>+#0(bold,bg=blue)e}", "{:>+#0e}", 0, 2),
    s!("{:.0e}", "{:.0e}", 0, 0),
    s!("{:+.0(fg=red)e}", "{:+.0e}", 0, 1),
    s!("{:-.0(bold,bg=blue)e}", "{:-.0e}", 0, 2),
    s!("{:#.0e}", "{:#.0e}", 0, 0),
    s!("{:0.0(fg=red)e}", "{:0.0e}", 0, 1),
    s!("{:<.0(bold,bg=blue)e}", "{:<.0e}", 0, 2),
    s!("{:^.0e}", "{:^.0e}", 0, 0),
    s!("{:>.0(fg=red)e}", "{:>.0e}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)e}", "{:>+#0.0e}", 0, 2),
    s!("{:.3e}", "{:.3e}", 0, 0),
    s!("{:+.3(fg=red)e}", "{:+.3e}", 0, 1),
    s!("{:-.3(bold,bg=blue)e}", "{:-.3e}", 0, 2),
    s!("{:#.3e}", "{:#.3e}", 0, 0),
    s!("{:0.3(fg=red)e}", "{:0.3e}", 0, 1),
    s!("{:<.3(bold,bg=blue)e}", "{:<.3e}", 0, 2),
    s!("{:^.3e}", "{:^.3e}", 0, 0),
    s!("{:>.3(fg=red)e}", "{:>.3e}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)e}", "{:>+#0.3e}", 0, 2),
    s!("{:1e}", "{:1e}", 1, 0),
    s!("{:+1(fg=red)e}", "{:+1e}", 1, 1),
    s!("{:-1(bold,bg=blue)e}", "{:-1e}", 1, 2),
    s!("{:#1e}", "{:#1e}", 1, 0),
    s!("{:01(fg=red)e}", "{:01e}", 1, 1),
    s!("{:<1(bold,bg=blue)e}", "{:<1e}", 1, 2),
    s!("{:^1e}", "{:^1e}", 1, 0),
    s!("{:>1(fg=red)e}", "{:>1e}", 1, 1),
    s!("{:>+#01(bold,bg=blue)e}", "{:>+#01e}", 1, 2),
    s!("{:1.0e}", "{:1.0e}", 1, 0),
    s!("{:+1.0(fg=red)e}", "{:+1.0e}", 1, 1),
    s!("{:-1.0(bold,bg=blue)e}", "{:-1.0e}", 1, 2),
    s!("{:#1.0e}", "{:#1.0e}", 1, 0),
    s!("{:01.0(fg=red)e}", "{:01.0e}", 1, 1),
    s!("{:<1.0(bold,bg=blue)e}", "{:<1.0e}", 1, 2),
    s!("{:^1.0e}", "{:^1.0e}", 1, 0),
    s!("{:>1.0(fg=red)e}", "{:>1.0e}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)e}", "{:>+#01.0e}", 1, 2),
    s!("{:1.3e}", "{:1.3e}", 1, 0),
    s!("{:+1.3(fg=red)e}", "{:+1.3e}", 1, 1),
    s!("{:-1.3(bold,bg=blue)e}", "{:-1.3e}", 1, 2),
    s!("{:#1.3e}", "{:#1.3e}", 1, 0),
    s!("{:01.3(fg=red)e}", "{:01.3e}", 1, 1),
    s!("{:<1.3(bold,bg=blue)e}", "{:<1.3e}", 1, 2),
    s!("{:^1.3e}", "{:^1.3e}", 1, 0),
    s!("{:>1.3(fg=red)e}", "{:>1.3e}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)e}", "{:>+#01.3e}", 1, 2),
    s!("{:7e}", "{:7e}", 7, 0),
    s!("{:+7(fg=red)e}", "{:+7e}", 7, 1),
    s!("{:-7(bold,bg=blue)e}", "{:-7e}", 7, 2),
    s!("{:#7e}", "{:#7e}", 7, 0),
    s!("{:07(fg=red)e}", "{:07e}", 7, 1),
    s!("{:<7(bold,bg=blue)e}", "{:<7e}", 7, 2),
    s!("{:^7e}", "{:^7e}", 7, 0),
    s!("{:>7(fg=red)e}", "{:>7e}", 7, 1),
    s!("{:>+#07(bold,bg=blue)e}", "{:>+#07e}", 7, 2),
    s!("{:7.0e}", "{:7.0e}", 7, 0),
    s!("{:+7.0(fg=red)e}", "{:+7.0e}", 7, 1),
    s!("{:-7.0(bold,bg=blue)e}", "{:-7.0e}", 7, 2),
    s!("{:#7.0e}", "{:#7.0e}", 7, 0),
    s!("{:07.0(fg=red)e}", "{:07.0e}", 7, 1),
    s!("{:<7.0(bold,bg=blue)e}", "{:<7.0e}", 7, 2),
    s!("{:^7.0e}", "{:^7.0e}", 7, 0),
    s!("{:>7.0(fg=red)e}", "{:>7.0e}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)e}", "{:>+#07.0e}", 7, 2),
    s!("{:7.3e}", "{:7.3e}", 7, 0),
    s!("{:+7.3(fg=red)e}", "{:+7.3e}", 7, 1),
    s!("{:-7.3(bold,bg=blue)e}", "{:-7.3e}", 7, 2),
    s!("{:#7.3e}", "{:#7.3e}", 7, 0),
    s!("{:07.3(fg=red)e}", "{:07.3e}", 7, 1),
    s!("{:<7.3(bold,bg=blue)e}", "{:<7.3e}", 7, 2),
    s!("{:^7.3e}", "{:^7.3e}", 7, 0),
    s!("{:>7.3(fg=red)e}", "{:>7.3e}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)e}", "{:>+#07.3e}", 7, 2),
    s!("{:40e}", "{:40e}", 40, 0),
    s!("{:+40(fg=red)e}", "{:+40e}", 40, 1),
    s!("{:-40(bold,bg=blue)e}", "{:-40e}", 40, 2),
    s!("{:#40e}", "{:#40e}", 40, 0),
    s!("{:040(fg=red)e}", "{:040e}", 40, 1),
    s!("{:<40(bold,bg=blue)e}", "{:<40e}", 40, 2),
    s!("{:^40e}", "{:^40e}", 40, 0),
    s!("{:>40(fg=red)e}", "{:>40e}", 40, 1),
    s!("{:>+#040(bold,bg=blue)e}", "{:>+#040e}", 40, 2),
    s!("{:40.0e}", "{:40.0e}", 40, 0),
    s!("{:+40.0(fg=red)e}", "{:+40.0e}", 40, 1),
    s!("{:-40.0(bold,bg=blue)e}", "{:-40.0e}", 40, 2),
    s!("{:#40.0e}", "{:#40.0e}", 40, 0),
    s!("{:040.0(fg=red)e}", "{:040.0e}", 40, 1),
    s!("{:<40.0(bold,bg=blue)e}", "{:<40.0e}", 40, 2),
    s!("{:^40.0e}", "{:^40.0e}", 40, 0),
    s!("{:>40.0(fg=red)e}", "{:>40.0e}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)e}", "{:>+#040.0e}", 40, 2),
    s!("{:40.3e}", "{:40.3e}", 40, 0),
    s!("{:+40.3(fg=red)e}", "{:+40.3e}", 40, 1),
    s!("{:-40.3(bold,bg=blue)e}", "{:-40.3e}", 40, 2),
    s!("{:#40.3e}", "{:#40.3e}", 40, 0),
    s!("{:040.3(fg=red)e}", "{:040.3e}", 40, 1),
    s!("{:<40.3(bold,bg=blue)e}", "{:<40.3e}", 40, 2),
    s!("{:^40.3e}", "{:^40.3e}", 40, 0),
    s!("{:>40.3(fg=red)e}", "{:>40.3e}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)e}", "{:>+#040.3e}", 40, 2),
    s!("{:300e}", "{:300e}", 300, 0),
    s!("{:+300(fg=red)e}", "{:+300e}", 300, 1),
    s!("{:-300(bold,bg=blue)e}", "{:-300e}", 300, 2),
    s!("{:#300e}", "{:#300e}", 300, 0),
    s!("{:0300(fg=red)e}", "{:0300e}", 300, 1),
    s!("{:<300(bold,bg=blue)e}", "{:<300e}", 300, 2),
    s!("{:^300e}", "{:^300e}", 300, 0),
    s!("{:>300(fg=red)e}", "{:>300e}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)e}", "{:>+#0300e}", 300, 2),
    s!("{:300.0e}", "{:300.0e}", 300, 0),
    s!("{:+300.0(fg=red)e}", "{:+300.0e}", 300, 1),
    s!("{:-300.0(bold,bg=blue)e}", "{:-300.0e}", 300, 2),
    s!("{:#300.0e}", "{:#300.0e}", 300, 0),
    s!("{:0300.0(fg=red)e}", "{:0300.0e}", 300, 1),
    s!("{:<300.0(bold,bg=blue)e}", "{:<300.0e}", 300, 2),
    s!("{:^300.0e}", "{:^300.0e}", 300, 0),
    s!("{:>300.0(fg=red)e}", "{:>300.0e}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)e}", "{:>+#0300.0e}", 300, 2),
    s!("{:300.3e}", "{:300.3e}", 300, 0),
    s!("{:+300.3(fg=red)e}", "{:+300.3e}", 300, 1),
    s!("{:-300.3(bold,bg=blue)e}", "{:-300.3e}", 300, 2),
    s!("{:#300.3e}", "{:#300.3e}", 300, 0),
    s!("{:0300.3(fg=red)e}", "{:0300.3e}", 300, 1),
    s!("{:<300.3(bold,bg=blue)e}", "{:<300.3e}", 300, 2),
    s!("{:^300.3e}", "{:^300.3e}", 300, 0),
    s!("{:>300.3(fg=red)e}", "{:>300.3e}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)e}", "{:>+#0300.3e}", 300, 2),
    s!("{:E}", "{:E}", 0, 0),
    s!("{:+(fg=red)E}", "{:+E}", 0, 1),
    s!("{:-(bold,bg=blue)E}", "{:-E}", 0, 2),
    s!("{:#E}", "{:#E}", 0, 0),
    s!("{:0(fg=red)E}", "{:0E}", 0, 1),
    s!("{:<(bold,bg=blue)E}", "{:<E}", 0, 2),
    s!("{:^E}", "{:^E}", 0, 0),
    s!("{:>(fg=red)E}", "{:>E}", 0, 1),
    s!("{:>+#0(bold,bg=blue)E}", "{:>+#0E}", 0, 2),
    s!("{:.0E}", "{:.0E}", 0, 0),
    s!("{:+.0(fg=red)E}", "{:+.0E}", 0, 1),
    s!("{:-.0(bold,bg=blue)E}", "{:-.0E}", 0, 2),
    s!("{:#.0E}", "{:#.0E}", 0, 0),
    s!("{:0.0(fg=red)E}", "{:0.0E}", 0, 1),
    s!("{:<.0(bold,bg=blue)E}", "{:<.0E}", 0, 2),
    s!("{:^.0E}", "{:^.0E}", 0, 0),
    s!("{:>.0(fg=red)E}", "{:>.0E}", 0, 1),
    s!("{:>+#0.0(bold,bg=blue)E}", "{:>+#0.0E}", 0, 2),
    s!("{:.3E}", "{:.3E}", 0, 0),
    s!("{:+.3(fg=red)E}", "{:+.3E}", 0, 1),
    s!("{:-.3(bold,bg=blue)E}", "{:-.3E}", 0, 2),
    s!("{:#.3E}", "{:#.3E}", 0, 0),
    s!("{:0.3(fg=red)E}", "{:0.3E}", 0, 1),
    s!("{:<.3(bold,bg=blue)E}", "{:<.3E}", 0, 2),
    s!("{:^.3E}", "{:^.3E}", 0, 0),
    s!("{:>.3(fg=red)E}", "{:>.3E}", 0, 1),
    s!("{:>+#0.3(bold,bg=blue)E}", "{:>+#0.3E}", 0, 2),
    s!("{:1E}", "{:1E}", 1, 0),
    s!("{:+1(fg=red)E}", "{:+1E}", 1, 1),
    s!("{:-1(bold,bg=blue)E}", "{:-1E}", 1, 2),
    s!("{:#1E}", "{:#1E}", 1, 0),
    s!("{:01(fg=red)E}", "{:01E}", 1, 1),
    s!("{:<1(bold,bg=blue)E}", "{:<1E}", 1, 2),
    s!("{:^1E}", "{:^1E}", 1, 0),
    s!("{:>1(fg=red)E}", "{:>1E}", 1, 1),
    s!("{:>+#01(bold,bg=blue)E}", "{:>+#01E}", 1, 2),
    s!("{:1.0E}", "{:1.0E}", 1, 0),
    s!("{:+1.0(fg=red)E}", "{:+1.0E}", 1, 1),
    s!("{:-1.0(bold,bg=blue)E}", "{:-1.0E}", 1, 2),
    s!("{:#1.0E}", "{:#1.0E}", 1, 0),
    s!("{:01.0(fg=red)E}", "{:01.0E}", 1, 1),
    s!("{:<1.0(bold,bg=blue)E}", "{:<1.0E}", 1, 2),
    s!("{:^1.0E}", "{:^1.0E}", 1, 0),
    s!("{:>1.0(fg=red)E}", "{:>1.0E}", 1, 1),
    s!("{:>+#01.0(bold,bg=blue)E}", "{:>+#01.0E}", 1, 2),
    s!("{:1.3E}", "{:1.3E}", 1, 0),
    s!("{:+1.3(fg=red)E}", "{:+1.3E}", 1, 1),
    s!("{:-1.3(bold,bg=blue)E}", "{:-1.3E}", 1, 2),
    s!("{:#1.3E}", "{:#1.3E}", 1, 0),
    s!("{:01.3(fg=red)E}", "{:01.3E}", 1, 1),
    s!("{:<1.3(bold,bg=blue)E}", "{:<1.3E}", 1, 2),
    s!("{:^1.3E}", "{:^1.3E}", 1, 0),
    s!("{:>1.3(fg=red)E}", "{:>1.3E}", 1, 1),
    s!("{:>+#01.3(bold,bg=blue)E}", "{:>+#01.3E}", 1, 2),
    s!("{:7E}", "{:7E}", 7, 0),
    s!("{:+7(fg=red)E}", "{:+7E}", 7, 1),
    s!("{:-7(bold,bg=blue)E}", "{:-7E}", 7, 2),
    s!("{:#7E}", "{:#7E}", 7, 0),
    s!("{:07(fg=red)E}", "{:07E}", 7, 1),
    s!("{:<7(bold,bg=blue)E}", "{:<7E}", 7, 2),
    s!("{:^7E}", "{:^7E}", 7, 0),
    s!("{:>7(fg=red)E}", "{:>7E}", 7, 1),
    s!("{:>+#07(bold,bg=blue)E}", "{:>+#07E}", 7, 2),
    s!("{:7.0E}", "{:7.0E}", 7, 0),
    s!("{:+7.0(fg=red)E}", "{:+7.0E}", 7, 1),
    s!("{:-7.0(bold,bg=blue)E}", "{:-7.0E}", 7, 2),
    s!("{:#7.0E}", "{:#7.0E}", 7, 0),
    s!("{:07.0(fg=red)E}", "{:07.0E}", 7, 1),
    s!("{:<7.0(bold,bg=blue)E}", "{:<7.0E}", 7, 2),
    s!("{:^7.0E}", "{:^7.0E}", 7, 0),
    s!("{:>7.0(fg=red)E}", "{:>7.0E}", 7, 1),
    s!("{:>+#07.0(bold,bg=blue)E}", "{:>+#07.0E}", 7, 2),
    s!("{:7.3E}", "{:7.3E}", 7, 0),
    s!("{:+7.3(fg=red)E}", "{:+7.3E}", 7, 1),
    s!("{:-7.3(bold,bg=blue)E}", "{:-7.3E}", 7, 2),
    s!("{:#7.3E}", "{:#7.3E}", 7, 0),
    s!("{:07.3(fg=red)E}", "{:07.3E}", 7, 1),
    s!("{:<7.3(bold,bg=blue)E}", "{:<7.3E}", 7, 2),
    s!("{:^7.3E}", "{:^7.3E}", 7, 0),
    s!("{:>7.3(fg=red)E}", "{:>7.3E}", 7, 1),
    s!("{:>+#07.3(bold,bg=blue)E}", "{:>+#07.3E}", 7, 2),
    s!("{:40E}", "{:40E}", 40, 0),
    s!("{:+40(fg=red)E}", "{:+40E}", 40, 1),
    s!("{:-40(bold,bg=blue)E}", "{:-40E}", 40, 2),
    s!("{:#40E}", "{:#40E}", 40, 0),
    s!("{:040(fg=red)E}", "{:040E}", 40, 1),
    s!("{:<40(bold,bg=blue)E}", "{:<40E}", 40, 2),
    s!("{:^40E}", "{:^40E}", 40, 0),
    s!("{:>40(fg=red)E}", "{:>40E}", 40, 1),
    s!("{:>+#040(bold,bg=blue)E}", "{:>+#040E}", 40, 2),
    s!("{:40.0E}", "{:40.0E}", 40, 0),
    s!("{:+40.0(fg=red)E}", "{:+40.0E}", 40, 1),
    s!("{:-40.0(bold,bg=blue)E}", "{:-40.0E}", 40, 2),
    s!("{:#40.0E}", "{:#40.0E}", 40, 0),
    s!("{:040.0(fg=red)E}", "{:040.0E}", 40, 1),
    s!("{:<40.0(bold,bg=blue)E}", "{:<40.0E}", 40, 2),
    s!("{:^40.0E}", "{:^40.0E}", 40, 0),
    s!("{:>40.0(fg=red)E}", "{:>40.0E}", 40, 1),
    s!("{:>+#040.0(bold,bg=blue)E}", "{:>+#040.0E}", 40, 2),
    s!("{:40.3E}", "{:40.3E}", 40, 0),
    s!("{:+40.3(fg=red)E}", "{:+40.3E}", 40, 1),
    s!("{:-40.3(bold,bg=blue)E}", "{:-40.3E}", 40, 2),
    s!("{:#40.3E}", "{:#40.3E}", 40, 0),
    s!("{:040.3(fg=red)E}", "{:040.3E}", 40, 1),
    s!("{:<40.3(bold,bg=blue)E}", "{:<40.3E}", 40, 2),
    s!("{:^40.3E}", "{:^40.3E}", 40, 0),
    s!("{:>40.3(fg=red)E}", "{:>40.3E}", 40, 1),
    s!("{:>+#040.3(bold,bg=blue)E}", "{:>+#040.3E}", 40, 2),
    s!("{:300E}", "{:300E}", 300, 0),
    s!("{:+300(fg=red)E}", "{:+300E}", 300, 1),
    s!("{:-300(bold,bg=blue)E}", "{:-300E}", 300, 2),
    s!("{:#300E}", "{:#300E}", 300, 0),
    s!("{:0300(fg=red)E}", "{:0300E}", 300, 1),
    s!("{:<300(bold,bg=blue)E}", "{:<300E}", 300, 2),
    s!("{:^300E}", "{:^300E}", 300, 0),
    s!("{:>300(fg=red)E}", "{:>300E}", 300, 1),
    s!("{:>+#0300(bold,bg=blue)E}", "{:>+#0300E}", 300, 2),
    s!("{:300.0E}", "{:300.0E}", 300, 0),
    s!("{:+300.0(fg=red)E}", "{:+300.0E}", 300, 1),
    s!("{:-300.0(bold,bg=blue)E}", "{:-300.0E}", 300, 2),
    s!("{:#300.0E}", "{:#300.0E}", 300, 0),
    s!("{:0300.0(fg=red)E}", "{:0300.0E}", 300, 1),
    s!("{:<300.0(bold,bg=blue)E}", "{:<300.0E}", 300, 2),
    s!("{:^300.0E}", "{:^300.0E}", 300, 0),
    s!("{:>300.0(fg=red)E}", "{:>300.0E}", 300, 1),
    s!("{:>+#0300.0(bold,bg=blue)E}", "{:>+#0300.0E}", 300, 2),
    s!("{:300.3E}", "{:300.3E}", 300, 0),
    s!("{:+300.3(fg=red)E}", "{:+300.3E}", 300, 1),
    s!("{:-300.3(bold,bg=blue)E}", "{:-300.3E}", 300, 2),
    s!("{:#300.3E}", "{:#300.3E}", 300, 0),
    s!("{:0300.3(fg=red)E}", "{:0300.3E}", 300, 1),
    s!("{:<300.3(bold,bg=blue)E}", "{:<300.3E}", 300, 2),
    s!("{:^300.3E}", "{:^300.3E}", 300, 0),
    s!("{:>300.3(fg=red)E}", "{:>300.3E}", 300, 1),
    s!("{:>+#0300.3(bold,bg=blue)E}", "{:>+#0300.3E}", 300, 2),
    s!("{:65535}", "{:65535}", 65535, 0),
    s!("{:^4097(fg=red)}", "{:^4097}", 4097, 1),
    s!("{:032(bold,bg=blue)}", "{:032}", 32, 2),
    s!("{:33.40}", "{:33.40}", 33, 0),
    s!("{:.300(fg=red)}", "{:.300}", 0, 1),
    s!("{:+2.1(bold,bg=blue)}", "{:+2.1}", 2, 2),
    s!("{:<129.33}", "{:<129.33}", 129, 0),
    s!("{:#257(fg=red)}", "{:#257}", 257, 1),
    s!("{:65535(bold,bg=blue)?}", "{:65535?}", 65535, 2),
    s!("{:^4097?}", "{:^4097?}", 4097, 0),
    s!("{:032(fg=red)?}", "{:032?}", 32, 1),
    s!("{:33.40(bold,bg=blue)?}", "{:33.40?}", 33, 2),
    s!("{:.300?}", "{:.300?}", 0, 0),
    s!("{:+2.1(fg=red)?}", "{:+2.1?}", 2, 1),
    s!("{:<129.33(bold,bg=blue)?}", "{:<129.33?}", 129, 2),
    s!("{:#257?}", "{:#257?}", 257, 0),
    s!("{:65535(fg=red)x}", "{:65535x}", 65535, 1),
    s!("{:^4097(bold,bg=blue)x}", "{:^4097x}", 4097, 2),
    s!("{:032x}", "{:032x}", 32, 0),
    s!("{:33.40(fg=red)x}", "{:33.40x}", 33, 1),
    s!("{:.300(bold,bg=blue)x}", "{:.300x}", 0, 2),
    s!("{:+2.1x}", "{:+2.1x}", 2, 0),
    s!("{:<129.33(fg=red)x}", "{:<129.33x}", 129, 1),
    s!("{:#257(bold,bg=blue)x}", "{:#257x}", 257, 2),
    s!("{:65535e}", "{:65535e}", 65535, 0),
    s!("{:^4097(fg=red)e}", "{:^4097e}", 4097, 1),
    s!("{:032(bold,bg=blue)e}", "{:032e}", 32, 2),
    s!("{:33.40e}", "{:33.40e}", 33, 0),
    s!("{:.300(fg=red)e}", "{:.300e}", 0, 1),
    s!("{:+2.1(bold,bg=blue)e}", "{:+2.1e}", 2, 2),
    s!("{:<129.33e}", "{:<129.33e}", 129, 0),
    s!("{:#257(fg=red)e}", "{:#257e}", 257, 1),
];
