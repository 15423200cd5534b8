---------------------------- MODULE TimingTable ----------------------------
(***************************************************************************)
(* The instruction times: <<MC68000, SCC68070, third, fourth>>.            *)
(* MC68000: M68000 8-/16-/32-Bit Microprocessors User's Manual, section 8, *)
(* reviewed from memory of that manual.  SCC68070: as the library          *)
(* documents them (cpu_details).  The third and fourth models are made up: *)
(* every constant differs from all others, so that which one an            *)
(* instruction takes can be told (C26); their columns are written by       *)
(* tools/mkdetails.py.                                                     *)
(***************************************************************************)
T == [
  VECTOR_RESET |-> <<40, 43, 135938, 848711>>, EA_ARI |-> <<4, 4, 175660, 92915>>,
  EA_ARIWPO |-> <<4, 4, 471904, 138365>>, EA_ARIWPR |-> <<6, 7, 310098, 469110>>,
  EA_ARIWD |-> <<8, 11, 679207, 432879>>, EA_ARIWI8 |-> <<10, 14, 366416, 860297>>,
  EA_ABSSHORT |-> <<8, 8, 354801, 90666>>, EA_ABSLONG |-> <<12, 12, 412889, 752213>>,
  EA_PCIWD |-> <<8, 11, 502611, 604051>>, EA_PCIWI8 |-> <<10, 14, 888526, 773750>>,
  EA_IMMEDIATE |-> <<4, 4, 195533, 749316>>, ABCD_REG |-> <<6, 10, 166914, 187282>>,
  ABCD_MEM |-> <<18, 31, 619837, 692170>>, ADD_REG_BW |-> <<4, 7, 648151, 590986>>,
  ADD_REG_L |-> <<6, 7, 456040, 907376>>, ADD_REG_L_RDIMM |-> <<8, 7, 41802, 24362>>,
  ADD_MEM_BW |-> <<8, 11, 669503, 457094>>, ADD_MEM_L |-> <<12, 15, 860864, 826593>>,
  ADDA_WORD |-> <<8, 7, 627746, 568838>>, ADDA_LONG |-> <<6, 7, 60150, 783378>>,
  ADDA_LONG_RDIMM |-> <<8, 7, 17910, 819855>>, ADDI_REG_BW |-> <<8, 14, 357333, 334987>>,
  ADDI_REG_L |-> <<16, 18, 824975, 128179>>, ADDI_MEM_BW |-> <<12, 18, 441516, 164415>>,
  ADDI_MEM_L |-> <<20, 26, 305112, 744738>>, ADDQ_REG_BW |-> <<4, 7, 369467, 403554>>,
  ADDQ_REG_L |-> <<8, 7, 373230, 603611>>, ADDQ_MEM_BW |-> <<8, 11, 174614, 266582>>,
  ADDQ_MEM_L |-> <<12, 15, 90907, 342116>>, ADDX_REG_BW |-> <<4, 7, 490012, 671783>>,
  ADDX_REG_L |-> <<8, 7, 42961, 500290>>, ADDX_MEM_BW |-> <<18, 28, 249049, 494587>>,
  ADDX_MEM_L |-> <<30, 40, 430812, 253010>>, AND_REG_BW |-> <<4, 7, 99665, 83480>>,
  AND_REG_L |-> <<6, 7, 418048, 686843>>, AND_REG_L_RDIMM |-> <<8, 7, 13988, 260861>>,
  AND_MEM_BW |-> <<8, 11, 904399, 369119>>, AND_MEM_L |-> <<12, 15, 633346, 794699>>,
  ANDI_REG_BW |-> <<8, 14, 625304, 492912>>, ANDI_REG_L |-> <<14, 18, 401633, 436104>>,
  ANDI_MEM_BW |-> <<12, 18, 500086, 104846>>, ANDI_MEM_L |-> <<20, 26, 738490, 96014>>,
  ANDICCR |-> <<20, 14, 588241, 142227>>, ANDISR |-> <<20, 14, 842519, 49137>>,
  ASM |-> <<8, 14, 212353, 34900>>, ASR_COUNT |-> <<2, 3, 446127, 160112>>,
  ASR_BW |-> <<6, 13, 768050, 554831>>, ASR_L |-> <<8, 13, 843745, 336327>>,
  BCC_BRANCH |-> <<10, 13, 527246, 774734>>, BCC_NO_BRANCH_BYTE |-> <<8, 14, 773176, 616153>>,
  BCC_NO_BRANCH_WORD |-> <<12, 14, 404230, 801389>>, BCHG_DYN_REG |-> <<8, 10, 908635, 371087>>,
  BCHG_DYN_MEM |-> <<8, 14, 892664, 130857>>, BCHG_STA_REG |-> <<12, 17, 357550, 652871>>,
  BCHG_STA_MEM |-> <<12, 21, 608605, 583000>>, BCLR_DYN_REG |-> <<10, 10, 738337, 225583>>,
  BCLR_DYN_MEM |-> <<8, 14, 215345, 860097>>, BCLR_STA_REG |-> <<14, 17, 174364, 713470>>,
  BCLR_STA_MEM |-> <<12, 21, 111341, 882439>>, BRA_BYTE |-> <<10, 13, 355623, 263076>>,
  BRA_WORD |-> <<10, 14, 311462, 23441>>, BSET_DYN_REG |-> <<8, 10, 428801, 88997>>,
  BSET_DYN_MEM |-> <<8, 14, 195445, 222498>>, BSET_STA_REG |-> <<12, 17, 773890, 581183>>,
  BSET_STA_MEM |-> <<12, 21, 660765, 21119>>, BSR_BYTE |-> <<18, 17, 675054, 784653>>,
  BSR_WORD |-> <<18, 22, 776667, 321261>>, BTST_DYN_REG |-> <<6, 7, 782889, 89070>>,
  BTST_DYN_MEM |-> <<4, 7, 568251, 704401>>, BTST_STA_REG |-> <<10, 14, 872432, 397190>>,
  BTST_STA_MEM |-> <<8, 14, 245191, 596918>>, CHK_NO_TRAP |-> <<10, 19, 303924, 119831>>,
  CLR_REG_BW |-> <<4, 7, 177000, 662692>>, CLR_REG_L |-> <<6, 7, 307132, 730812>>,
  CLR_MEM_BW |-> <<8, 7, 448558, 543617>>, CLR_MEM_L |-> <<12, 7, 685841, 401729>>,
  CMP_BW |-> <<4, 7, 758021, 512564>>, CMP_L |-> <<6, 7, 488319, 862345>>, CMPA |-> <<6, 7, 186578, 835053>>,
  CMPI_REG_BW |-> <<8, 14, 292595, 864717>>, CMPI_REG_L |-> <<14, 18, 32219, 302297>>,
  CMPI_MEM_BW |-> <<8, 14, 70243, 855289>>, CMPI_MEM_L |-> <<12, 18, 517270, 44442>>,
  CMPM_BW |-> <<12, 18, 828665, 136066>>, CMPM_L |-> <<20, 26, 248936, 384146>>,
  DBCC_TRUE |-> <<12, 14, 730228, 496704>>, DBCC_FALSE_BRANCH |-> <<10, 17, 34427, 171281>>,
  DBCC_FALSE_NO_BRANCH |-> <<14, 17, 450040, 542574>>, DIVS |-> <<158, 169, 836374, 784718>>,
  DIVU |-> <<140, 130, 55879, 743590>>, EOR_REG_BW |-> <<4, 7, 511075, 426586>>,
  EOR_REG_L |-> <<8, 7, 361809, 488859>>, EOR_MEM_BW |-> <<8, 11, 662809, 861351>>,
  EOR_MEM_L |-> <<12, 15, 145521, 483435>>, EORI_REG_BW |-> <<8, 14, 206542, 696437>>,
  EORI_REG_L |-> <<16, 18, 477949, 250599>>, EORI_MEM_BW |-> <<12, 18, 906242, 606096>>,
  EORI_MEM_L |-> <<20, 26, 683552, 661530>>, EORICCR |-> <<20, 14, 345372, 728585>>,
  EORISR |-> <<20, 14, 156792, 375726>>, EXG |-> <<6, 13, 601381, 101558>>, EXT |-> <<4, 7, 563907, 595670>>,
  JMP_ARI |-> <<8, 7, 113404, 489224>>, JMP_ARIWD |-> <<10, 14, 588589, 743171>>,
  JMP_ARIWI8 |-> <<14, 17, 535042, 488573>>, JMP_ABSSHORT |-> <<10, 14, 720660, 877209>>,
  JMP_ABSLONG |-> <<12, 18, 134294, 886181>>, JMP_PCIWD |-> <<10, 14, 597589, 273180>>,
  JMP_PCIWI8 |-> <<14, 17, 690469, 695225>>, JSR_ARI |-> <<16, 18, 297220, 138035>>,
  JSR_ARIWD |-> <<18, 25, 875349, 362646>>, JSR_ARIWI8 |-> <<22, 28, 119460, 519349>>,
  JSR_ABSSHORT |-> <<18, 25, 97094, 478046>>, JSR_ABSLONG |-> <<20, 29, 506983, 388519>>,
  JSR_PCIWD |-> <<18, 25, 223462, 654202>>, JSR_PCIWI8 |-> <<22, 28, 27147, 100464>>,
  LEA_ARI |-> <<4, 7, 519412, 536146>>, LEA_ARIWD |-> <<8, 14, 158065, 828392>>,
  LEA_ARIWI8 |-> <<12, 17, 410272, 445659>>, LEA_ABSSHORT |-> <<8, 14, 107337, 139801>>,
  LEA_ABSLONG |-> <<12, 18, 719105, 843673>>, LEA_PCIWD |-> <<8, 14, 430217, 521616>>,
  LEA_PCIWI8 |-> <<12, 17, 714609, 225840>>, LINK |-> <<16, 25, 830665, 376912>>,
  LSM |-> <<8, 14, 490000, 818110>>, LSR_COUNT |-> <<2, 3, 48613, 779748>>,
  LSR_BW |-> <<6, 13, 110945, 855691>>, LSR_L |-> <<8, 13, 696182, 532406>>,
  MOVE_DST_ARIWPR |-> <<2, 7, 369379, 387625>>, MOVE_OTHER |-> <<4, 7, 677823, 116022>>,
  MOVEA |-> <<4, 7, 565029, 307493>>, MOVECCR |-> <<12, 10, 471189, 905177>>,
  MOVEFSR_REG |-> <<6, 7, 887646, 661047>>, MOVEFSR_MEM |-> <<8, 11, 909792, 531067>>,
  MOVESR |-> <<12, 10, 788082, 228851>>, MOVEUSP |-> <<4, 7, 557691, 332801>>,
  MOVEM_WORD |-> <<4, 7, 700686, 692332>>, MOVEM_LONG |-> <<8, 11, 279669, 60842>>,
  MOVEM_MTR |-> <<4, 3, 545676, 773496>>, MOVEM_ARI |-> <<8, 23, 763094, 327757>>,
  MOVEM_ARIWPO |-> <<8, 23, 635155, 198314>>, MOVEM_ARIWPR |-> <<8, 23, 392963, 741223>>,
  MOVEM_ARIWD |-> <<12, 27, 589997, 865981>>, MOVEM_ARIWI8 |-> <<14, 30, 195657, 208892>>,
  MOVEM_ABSSHORT |-> <<12, 27, 612738, 304914>>, MOVEM_ABSLONG |-> <<16, 31, 481946, 552470>>,
  MOVEM_PCIWD |-> <<12, 27, 132704, 411669>>, MOVEM_PCIWI8 |-> <<14, 30, 109617, 880225>>,
  MOVEP_RTM_WORD |-> <<16, 25, 615840, 660448>>, MOVEP_RTM_LONG |-> <<24, 39, 334964, 700133>>,
  MOVEP_MTR_WORD |-> <<16, 22, 103093, 525752>>, MOVEP_MTR_LONG |-> <<24, 36, 141330, 121308>>,
  MOVEQ |-> <<4, 7, 884895, 769785>>, MULS |-> <<70, 76, 205269, 10876>>, MULU |-> <<70, 76, 418687, 158352>>,
  NBCD_REG |-> <<6, 10, 371871, 297169>>, NBCD_MEM |-> <<8, 14, 902650, 730791>>,
  NEG_REG_BW |-> <<4, 7, 419242, 295404>>, NEG_REG_L |-> <<6, 7, 83616, 138490>>,
  NEG_MEM_BW |-> <<8, 11, 837078, 728781>>, NEG_MEM_L |-> <<12, 15, 183296, 452153>>,
  NEGX_REG_BW |-> <<4, 7, 174914, 869050>>, NEGX_REG_L |-> <<6, 7, 103100, 250869>>,
  NEGX_MEM_BW |-> <<8, 11, 528182, 385585>>, NEGX_MEM_L |-> <<12, 15, 275688, 486925>>,
  NOP |-> <<4, 7, 688580, 314688>>, NOT_REG_BW |-> <<4, 7, 695276, 101394>>,
  NOT_REG_L |-> <<6, 7, 624771, 673473>>, NOT_MEM_BW |-> <<8, 11, 418072, 452823>>,
  NOT_MEM_L |-> <<12, 15, 388718, 447100>>, OR_REG_BW |-> <<4, 7, 166123, 267934>>,
  OR_REG_L |-> <<6, 7, 599624, 448603>>, OR_REG_L_RDIMM |-> <<8, 7, 708652, 792891>>,
  OR_MEM_BW |-> <<8, 11, 766335, 628013>>, OR_MEM_L |-> <<12, 15, 715019, 118903>>,
  ORI_REG_BW |-> <<8, 14, 32070, 30710>>, ORI_REG_L |-> <<16, 18, 164188, 723170>>,
  ORI_MEM_BW |-> <<12, 18, 481593, 444731>>, ORI_MEM_L |-> <<20, 26, 414365, 187567>>,
  ORICCR |-> <<20, 14, 576911, 232738>>, ORISR |-> <<20, 14, 778166, 516876>>,
  PEA_ARI |-> <<12, 18, 66304, 324332>>, PEA_ARIWD |-> <<16, 25, 451231, 39372>>,
  PEA_ARIWI8 |-> <<20, 28, 873386, 586001>>, PEA_ABSSHORT |-> <<16, 25, 98046, 72651>>,
  PEA_ABSLONG |-> <<20, 29, 174074, 23774>>, PEA_PCIWD |-> <<16, 25, 616589, 316720>>,
  PEA_PCIWI8 |-> <<20, 28, 287231, 422769>>, RESET |-> <<132, 154, 16676, 275000>>,
  ROM |-> <<8, 14, 678593, 243257>>, ROR_COUNT |-> <<2, 3, 886182, 374679>>,
  ROR_BW |-> <<6, 13, 566102, 713816>>, ROR_L |-> <<8, 13, 683949, 525071>>, ROXM |-> <<8, 14, 487588, 138973>>,
  ROXR_COUNT |-> <<2, 3, 815149, 449950>>, ROXR_BW |-> <<6, 13, 233460, 673406>>,
  ROXR_L |-> <<8, 13, 409360, 260059>>, RTE |-> <<20, 39, 458349, 735524>>, RTR |-> <<20, 22, 115351, 200470>>,
  RTS |-> <<16, 15, 676080, 195287>>, SBCD_REG |-> <<6, 10, 759643, 859708>>,
  SBCD_MEM |-> <<18, 31, 329013, 290704>>, SCC_REG_FALSE |-> <<4, 13, 110848, 394113>>,
  SCC_REG_TRUE |-> <<6, 13, 96204, 62830>>, SCC_MEM_FALSE |-> <<8, 17, 122559, 642727>>,
  SCC_MEM_TRUE |-> <<8, 14, 22417, 278196>>, STOP |-> <<4, 13, 783995, 620509>>,
  SUB_REG_BW |-> <<4, 7, 774154, 15395>>, SUB_REG_L |-> <<6, 7, 272772, 92455>>,
  SUB_REG_L_RDIMM |-> <<8, 7, 271494, 359339>>, SUB_MEM_BW |-> <<8, 11, 251599, 427993>>,
  SUB_MEM_L |-> <<12, 15, 706113, 81202>>, SUBA_WORD |-> <<8, 7, 539697, 481545>>,
  SUBA_LONG |-> <<6, 7, 619396, 680200>>, SUBA_LONG_RDIMM |-> <<8, 7, 643692, 238655>>,
  SUBI_REG_BW |-> <<8, 14, 740907, 37205>>, SUBI_REG_L |-> <<16, 18, 59919, 557243>>,
  SUBI_MEM_BW |-> <<12, 18, 852168, 895483>>, SUBI_MEM_L |-> <<20, 26, 119669, 48709>>,
  SUBQ_DREG_BW |-> <<4, 7, 389573, 779725>>, SUBQ_AREG_BW |-> <<8, 7, 889485, 305849>>,
  SUBQ_REG_L |-> <<8, 7, 701769, 840203>>, SUBQ_MEM_BW |-> <<8, 11, 880229, 909148>>,
  SUBQ_MEM_L |-> <<12, 15, 568674, 366442>>, SUBX_REG_BW |-> <<4, 7, 51689, 212164>>,
  SUBX_REG_L |-> <<8, 7, 681597, 841737>>, SUBX_MEM_BW |-> <<18, 28, 18554, 614990>>,
  SUBX_MEM_L |-> <<30, 40, 425802, 869298>>, SWAP |-> <<4, 7, 900836, 376325>>,
  TAS_REG |-> <<4, 10, 769573, 26128>>, TAS_MEM |-> <<14, 11, 185266, 899242>>,
  TRAPV_NO_TRAP |-> <<4, 10, 341591, 713135>>, TST_REG_BW |-> <<4, 7, 856920, 163126>>,
  TST_REG_L |-> <<4, 7, 623740, 142458>>, TST_MEM_BW |-> <<4, 7, 26546, 813502>>,
  TST_MEM_L |-> <<4, 7, 222272, 540379>>, UNLK |-> <<12, 15, 478925, 80735>>
]
=============================================================================
