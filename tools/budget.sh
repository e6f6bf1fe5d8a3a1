# budget PROPERTY TIER: number of scenarios (0: no limit) and seconds.
# The quick list is a fixed number of scenarios, about 25 s on 8 cores, so that
# a check explores the same scenarios whatever the speed of the machine.
budget() {
	if [ "$2" = thorough ]; then
		echo "0 ${VERIF_SECS:-600}"
		return
	fi
	case $1 in
	C01) n=20000 ;; C02) n=26000 ;; C03) n=32000 ;; C04) n=9000 ;; C05) n=8800 ;;
	C06) n=15000 ;; C07) n=6000 ;; C08) n=28000 ;; C09) n=40000 ;; C10) n=8400 ;;
	C11) n=30000 ;; C12) n=32000 ;; C13) n=12000 ;; C14) n=3400 ;; C15) n=5600 ;;
	C16) n=12000 ;; C17) n=25000 ;; C18) n=16000 ;; C19) n=3800 ;; C20) n=11500 ;;
	C24) n=16000 ;; C25) n=6000 ;; C26) n=45000 ;; C27) n=20000 ;; C28) n=26000 ;;
	C29) n=4000 ;;
	C30) n=9000 ;;
	C31) n=14000 ;; C32) n=6000 ;;
	C22) n=40000 ;; C23) n=8000 ;;
	*) n=16000 ;;
	esac
	echo "$n ${VERIF_SECS:-300}"
}
