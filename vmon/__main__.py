from vmon.rt import main
main()
