// Package c44: what the container templates give.
//
// templates: stl
//
// bound: package stl is regenerated from the templates of stl/gp with the settings of stl/stl.gpg, as the gogp tool does; the entries are those of C01 to C13 with their bounds
package c44

import (
	"verif/c01"
	"verif/c02"
	"verif/c03"
	"verif/c04"
	"verif/c05"
	"verif/c06"
	"verif/c07"
	"verif/c08"
	"verif/c09"
	"verif/c10"
	"verif/c11"
	"verif/c12"
	"verif/c13"
)

func CheckDequeState() { c01.CheckState() }
func CheckDequeHistory() { c01.CheckHistory() }
func CheckDequeLong() { c01.CheckLong() }
func CheckDequeBig() { c01.CheckBig() }
func CheckDequeTwo() { c01.CheckTwo() }
func CheckQueueState() { c02.CheckState() }
func CheckQueueHistory() { c02.CheckHistory() }
func CheckQueueLong() { c02.CheckLong() }
func CheckQueueBig() { c02.CheckBig() }
func CheckQueueTwo() { c02.CheckTwo() }
func CheckStackHistory() { c03.CheckHistory() }
func CheckStackBig() { c03.CheckBig() }
func CheckStackTwo() { c03.CheckTwo() }
func CheckHeapHistory() { c04.CheckHistory() }
func CheckHeapSort() { c04.CheckSort() }
func CheckHeapDeep() { c04.CheckDeep() }
func CheckHeapTwo() { c04.CheckTwo() }
func CheckHeapBig() { c04.CheckBig() }
func CheckLimitLimit() { c05.CheckLimit() }
func CheckLimitDeep() { c05.CheckDeep() }
func CheckLimitHistory() { c05.CheckHistory() }
func CheckHeapSlicesAlgorithms() { c06.CheckAlgorithms() }
func CheckHeapSlicesDeep() { c06.CheckDeep() }
func CheckHeapSlicesCheckHeap() { c06.CheckCheckHeap() }
func CheckHeapSlicesBig() { c06.CheckBig() }
func CheckListOps() { c07.CheckOps() }
func CheckListRemoved() { c07.CheckRemoved() }
func CheckListLarge() { c07.CheckLarge() }
func CheckListVisitor() { c07.CheckVisitor() }
func CheckListLong() { c07.CheckLong() }
func CheckListSortSort() { c08.CheckSort() }
func CheckListSortDeep() { c08.CheckDeep() }
func CheckListSortLong() { c08.CheckLong() }
func CheckSListOps() { c09.CheckOps() }
func CheckSListRemoved() { c09.CheckRemoved() }
func CheckSListLarge() { c09.CheckLarge() }
func CheckSListCycle() { c09.CheckCycle() }
func CheckSListLong() { c09.CheckLong() }
func CheckSListSortSort() { c10.CheckSort() }
func CheckSListSortDeep() { c10.CheckDeep() }
func CheckSListSortLong() { c10.CheckLong() }
func CheckSortSliceOps() { c11.CheckOps() }
func CheckSortSliceLarge() { c11.CheckLarge() }
func CheckSortSliceSort() { c11.CheckSort() }
func CheckSortSliceDeep() { c11.CheckDeep() }
func CheckSortSliceNodes() { c11.CheckNodes() }
func CheckTreeTree() { c12.CheckTree() }
func CheckTreeLarge() { c12.CheckLarge() }
func CheckTreeTurn() { c12.CheckTurn() }
func CheckTreeWalk() { c12.CheckWalk() }
func CheckCmpInt() { c13.CheckInt() }
func CheckCmpNode() { c13.CheckNode() }
func CheckCmpNames() { c13.CheckNames() }
