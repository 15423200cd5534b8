//! Two made-up CPU models whose constants all differ, and the built-in ones with their stack formats exchanged
//! (written by tools/mkdetails.py).

use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::{CpuDetails, StackFormat};

#[derive(Clone, Debug, Default)]
pub struct Third;
impl CpuDetails for Third {
    const STACK_FORMAT: StackFormat = StackFormat::MC68000;
    fn vector_execution_time(vector: u8) -> usize { 1000003 + 7919 * vector as usize }
    const VECTOR_RESET: usize = 135938;
    const EA_ARI: usize = 175660;
    const EA_ARIWPO: usize = 471904;
    const EA_ARIWPR: usize = 310098;
    const EA_ARIWD: usize = 679207;
    const EA_ARIWI8: usize = 366416;
    const EA_ABSSHORT: usize = 354801;
    const EA_ABSLONG: usize = 412889;
    const EA_PCIWD: usize = 502611;
    const EA_PCIWI8: usize = 888526;
    const EA_IMMEDIATE: usize = 195533;
    const ABCD_REG: usize = 166914;
    const ABCD_MEM: usize = 619837;
    const ADD_REG_BW: usize = 648151;
    const ADD_REG_L: usize = 456040;
    const ADD_REG_L_RDIMM: usize = 41802;
    const ADD_MEM_BW: usize = 669503;
    const ADD_MEM_L: usize = 860864;
    const ADDA_WORD: usize = 627746;
    const ADDA_LONG: usize = 60150;
    const ADDA_LONG_RDIMM: usize = 17910;
    const ADDI_REG_BW: usize = 357333;
    const ADDI_REG_L: usize = 824975;
    const ADDI_MEM_BW: usize = 441516;
    const ADDI_MEM_L: usize = 305112;
    const ADDQ_REG_BW: usize = 369467;
    const ADDQ_REG_L: usize = 373230;
    const ADDQ_MEM_BW: usize = 174614;
    const ADDQ_MEM_L: usize = 90907;
    const ADDX_REG_BW: usize = 490012;
    const ADDX_REG_L: usize = 42961;
    const ADDX_MEM_BW: usize = 249049;
    const ADDX_MEM_L: usize = 430812;
    const AND_REG_BW: usize = 99665;
    const AND_REG_L: usize = 418048;
    const AND_REG_L_RDIMM: usize = 13988;
    const AND_MEM_BW: usize = 904399;
    const AND_MEM_L: usize = 633346;
    const ANDI_REG_BW: usize = 625304;
    const ANDI_REG_L: usize = 401633;
    const ANDI_MEM_BW: usize = 500086;
    const ANDI_MEM_L: usize = 738490;
    const ANDICCR: usize = 588241;
    const ANDISR: usize = 842519;
    const ASM: usize = 212353;
    const ASR_COUNT: usize = 446127;
    const ASR_BW: usize = 768050;
    const ASR_L: usize = 843745;
    const BCC_BRANCH: usize = 527246;
    const BCC_NO_BRANCH_BYTE: usize = 773176;
    const BCC_NO_BRANCH_WORD: usize = 404230;
    const BCHG_DYN_REG: usize = 908635;
    const BCHG_DYN_MEM: usize = 892664;
    const BCHG_STA_REG: usize = 357550;
    const BCHG_STA_MEM: usize = 608605;
    const BCLR_DYN_REG: usize = 738337;
    const BCLR_DYN_MEM: usize = 215345;
    const BCLR_STA_REG: usize = 174364;
    const BCLR_STA_MEM: usize = 111341;
    const BRA_BYTE: usize = 355623;
    const BRA_WORD: usize = 311462;
    const BSET_DYN_REG: usize = 428801;
    const BSET_DYN_MEM: usize = 195445;
    const BSET_STA_REG: usize = 773890;
    const BSET_STA_MEM: usize = 660765;
    const BSR_BYTE: usize = 675054;
    const BSR_WORD: usize = 776667;
    const BTST_DYN_REG: usize = 782889;
    const BTST_DYN_MEM: usize = 568251;
    const BTST_STA_REG: usize = 872432;
    const BTST_STA_MEM: usize = 245191;
    const CHK_NO_TRAP: usize = 303924;
    const CLR_REG_BW: usize = 177000;
    const CLR_REG_L: usize = 307132;
    const CLR_MEM_BW: usize = 448558;
    const CLR_MEM_L: usize = 685841;
    const CMP_BW: usize = 758021;
    const CMP_L: usize = 488319;
    const CMPA: usize = 186578;
    const CMPI_REG_BW: usize = 292595;
    const CMPI_REG_L: usize = 32219;
    const CMPI_MEM_BW: usize = 70243;
    const CMPI_MEM_L: usize = 517270;
    const CMPM_BW: usize = 828665;
    const CMPM_L: usize = 248936;
    const DBCC_TRUE: usize = 730228;
    const DBCC_FALSE_BRANCH: usize = 34427;
    const DBCC_FALSE_NO_BRANCH: usize = 450040;
    const DIVS: usize = 836374;
    const DIVU: usize = 55879;
    const EOR_REG_BW: usize = 511075;
    const EOR_REG_L: usize = 361809;
    const EOR_MEM_BW: usize = 662809;
    const EOR_MEM_L: usize = 145521;
    const EORI_REG_BW: usize = 206542;
    const EORI_REG_L: usize = 477949;
    const EORI_MEM_BW: usize = 906242;
    const EORI_MEM_L: usize = 683552;
    const EORICCR: usize = 345372;
    const EORISR: usize = 156792;
    const EXG: usize = 601381;
    const EXT: usize = 563907;
    const JMP_ARI: usize = 113404;
    const JMP_ARIWD: usize = 588589;
    const JMP_ARIWI8: usize = 535042;
    const JMP_ABSSHORT: usize = 720660;
    const JMP_ABSLONG: usize = 134294;
    const JMP_PCIWD: usize = 597589;
    const JMP_PCIWI8: usize = 690469;
    const JSR_ARI: usize = 297220;
    const JSR_ARIWD: usize = 875349;
    const JSR_ARIWI8: usize = 119460;
    const JSR_ABSSHORT: usize = 97094;
    const JSR_ABSLONG: usize = 506983;
    const JSR_PCIWD: usize = 223462;
    const JSR_PCIWI8: usize = 27147;
    const LEA_ARI: usize = 519412;
    const LEA_ARIWD: usize = 158065;
    const LEA_ARIWI8: usize = 410272;
    const LEA_ABSSHORT: usize = 107337;
    const LEA_ABSLONG: usize = 719105;
    const LEA_PCIWD: usize = 430217;
    const LEA_PCIWI8: usize = 714609;
    const LINK: usize = 830665;
    const LSM: usize = 490000;
    const LSR_COUNT: usize = 48613;
    const LSR_BW: usize = 110945;
    const LSR_L: usize = 696182;
    const MOVE_DST_ARIWPR: usize = 369379;
    const MOVE_OTHER: usize = 677823;
    const MOVEA: usize = 565029;
    const MOVECCR: usize = 471189;
    const MOVEFSR_REG: usize = 887646;
    const MOVEFSR_MEM: usize = 909792;
    const MOVESR: usize = 788082;
    const MOVEUSP: usize = 557691;
    const MOVEM_WORD: usize = 700686;
    const MOVEM_LONG: usize = 279669;
    const MOVEM_MTR: usize = 545676;
    const MOVEM_ARI: usize = 763094;
    const MOVEM_ARIWPO: usize = 635155;
    const MOVEM_ARIWPR: usize = 392963;
    const MOVEM_ARIWD: usize = 589997;
    const MOVEM_ARIWI8: usize = 195657;
    const MOVEM_ABSSHORT: usize = 612738;
    const MOVEM_ABSLONG: usize = 481946;
    const MOVEM_PCIWD: usize = 132704;
    const MOVEM_PCIWI8: usize = 109617;
    const MOVEP_RTM_WORD: usize = 615840;
    const MOVEP_RTM_LONG: usize = 334964;
    const MOVEP_MTR_WORD: usize = 103093;
    const MOVEP_MTR_LONG: usize = 141330;
    const MOVEQ: usize = 884895;
    const MULS: usize = 205269;
    const MULU: usize = 418687;
    const NBCD_REG: usize = 371871;
    const NBCD_MEM: usize = 902650;
    const NEG_REG_BW: usize = 419242;
    const NEG_REG_L: usize = 83616;
    const NEG_MEM_BW: usize = 837078;
    const NEG_MEM_L: usize = 183296;
    const NEGX_REG_BW: usize = 174914;
    const NEGX_REG_L: usize = 103100;
    const NEGX_MEM_BW: usize = 528182;
    const NEGX_MEM_L: usize = 275688;
    const NOP: usize = 688580;
    const NOT_REG_BW: usize = 695276;
    const NOT_REG_L: usize = 624771;
    const NOT_MEM_BW: usize = 418072;
    const NOT_MEM_L: usize = 388718;
    const OR_REG_BW: usize = 166123;
    const OR_REG_L: usize = 599624;
    const OR_REG_L_RDIMM: usize = 708652;
    const OR_MEM_BW: usize = 766335;
    const OR_MEM_L: usize = 715019;
    const ORI_REG_BW: usize = 32070;
    const ORI_REG_L: usize = 164188;
    const ORI_MEM_BW: usize = 481593;
    const ORI_MEM_L: usize = 414365;
    const ORICCR: usize = 576911;
    const ORISR: usize = 778166;
    const PEA_ARI: usize = 66304;
    const PEA_ARIWD: usize = 451231;
    const PEA_ARIWI8: usize = 873386;
    const PEA_ABSSHORT: usize = 98046;
    const PEA_ABSLONG: usize = 174074;
    const PEA_PCIWD: usize = 616589;
    const PEA_PCIWI8: usize = 287231;
    const RESET: usize = 16676;
    const ROM: usize = 678593;
    const ROR_COUNT: usize = 886182;
    const ROR_BW: usize = 566102;
    const ROR_L: usize = 683949;
    const ROXM: usize = 487588;
    const ROXR_COUNT: usize = 815149;
    const ROXR_BW: usize = 233460;
    const ROXR_L: usize = 409360;
    const RTE: usize = 458349;
    const RTR: usize = 115351;
    const RTS: usize = 676080;
    const SBCD_REG: usize = 759643;
    const SBCD_MEM: usize = 329013;
    const SCC_REG_FALSE: usize = 110848;
    const SCC_REG_TRUE: usize = 96204;
    const SCC_MEM_FALSE: usize = 122559;
    const SCC_MEM_TRUE: usize = 22417;
    const STOP: usize = 783995;
    const SUB_REG_BW: usize = 774154;
    const SUB_REG_L: usize = 272772;
    const SUB_REG_L_RDIMM: usize = 271494;
    const SUB_MEM_BW: usize = 251599;
    const SUB_MEM_L: usize = 706113;
    const SUBA_WORD: usize = 539697;
    const SUBA_LONG: usize = 619396;
    const SUBA_LONG_RDIMM: usize = 643692;
    const SUBI_REG_BW: usize = 740907;
    const SUBI_REG_L: usize = 59919;
    const SUBI_MEM_BW: usize = 852168;
    const SUBI_MEM_L: usize = 119669;
    const SUBQ_DREG_BW: usize = 389573;
    const SUBQ_AREG_BW: usize = 889485;
    const SUBQ_REG_L: usize = 701769;
    const SUBQ_MEM_BW: usize = 880229;
    const SUBQ_MEM_L: usize = 568674;
    const SUBX_REG_BW: usize = 51689;
    const SUBX_REG_L: usize = 681597;
    const SUBX_MEM_BW: usize = 18554;
    const SUBX_MEM_L: usize = 425802;
    const SWAP: usize = 900836;
    const TAS_REG: usize = 769573;
    const TAS_MEM: usize = 185266;
    const TRAPV_NO_TRAP: usize = 341591;
    const TST_REG_BW: usize = 856920;
    const TST_REG_L: usize = 623740;
    const TST_MEM_BW: usize = 26546;
    const TST_MEM_L: usize = 222272;
    const UNLK: usize = 478925;
}

#[derive(Clone, Debug, Default)]
pub struct Fourth;
impl CpuDetails for Fourth {
    const STACK_FORMAT: StackFormat = StackFormat::SCC68070;
    fn vector_execution_time(vector: u8) -> usize { 2000003 + 104729 * vector as usize }
    const VECTOR_RESET: usize = 848711;
    const EA_ARI: usize = 92915;
    const EA_ARIWPO: usize = 138365;
    const EA_ARIWPR: usize = 469110;
    const EA_ARIWD: usize = 432879;
    const EA_ARIWI8: usize = 860297;
    const EA_ABSSHORT: usize = 90666;
    const EA_ABSLONG: usize = 752213;
    const EA_PCIWD: usize = 604051;
    const EA_PCIWI8: usize = 773750;
    const EA_IMMEDIATE: usize = 749316;
    const ABCD_REG: usize = 187282;
    const ABCD_MEM: usize = 692170;
    const ADD_REG_BW: usize = 590986;
    const ADD_REG_L: usize = 907376;
    const ADD_REG_L_RDIMM: usize = 24362;
    const ADD_MEM_BW: usize = 457094;
    const ADD_MEM_L: usize = 826593;
    const ADDA_WORD: usize = 568838;
    const ADDA_LONG: usize = 783378;
    const ADDA_LONG_RDIMM: usize = 819855;
    const ADDI_REG_BW: usize = 334987;
    const ADDI_REG_L: usize = 128179;
    const ADDI_MEM_BW: usize = 164415;
    const ADDI_MEM_L: usize = 744738;
    const ADDQ_REG_BW: usize = 403554;
    const ADDQ_REG_L: usize = 603611;
    const ADDQ_MEM_BW: usize = 266582;
    const ADDQ_MEM_L: usize = 342116;
    const ADDX_REG_BW: usize = 671783;
    const ADDX_REG_L: usize = 500290;
    const ADDX_MEM_BW: usize = 494587;
    const ADDX_MEM_L: usize = 253010;
    const AND_REG_BW: usize = 83480;
    const AND_REG_L: usize = 686843;
    const AND_REG_L_RDIMM: usize = 260861;
    const AND_MEM_BW: usize = 369119;
    const AND_MEM_L: usize = 794699;
    const ANDI_REG_BW: usize = 492912;
    const ANDI_REG_L: usize = 436104;
    const ANDI_MEM_BW: usize = 104846;
    const ANDI_MEM_L: usize = 96014;
    const ANDICCR: usize = 142227;
    const ANDISR: usize = 49137;
    const ASM: usize = 34900;
    const ASR_COUNT: usize = 160112;
    const ASR_BW: usize = 554831;
    const ASR_L: usize = 336327;
    const BCC_BRANCH: usize = 774734;
    const BCC_NO_BRANCH_BYTE: usize = 616153;
    const BCC_NO_BRANCH_WORD: usize = 801389;
    const BCHG_DYN_REG: usize = 371087;
    const BCHG_DYN_MEM: usize = 130857;
    const BCHG_STA_REG: usize = 652871;
    const BCHG_STA_MEM: usize = 583000;
    const BCLR_DYN_REG: usize = 225583;
    const BCLR_DYN_MEM: usize = 860097;
    const BCLR_STA_REG: usize = 713470;
    const BCLR_STA_MEM: usize = 882439;
    const BRA_BYTE: usize = 263076;
    const BRA_WORD: usize = 23441;
    const BSET_DYN_REG: usize = 88997;
    const BSET_DYN_MEM: usize = 222498;
    const BSET_STA_REG: usize = 581183;
    const BSET_STA_MEM: usize = 21119;
    const BSR_BYTE: usize = 784653;
    const BSR_WORD: usize = 321261;
    const BTST_DYN_REG: usize = 89070;
    const BTST_DYN_MEM: usize = 704401;
    const BTST_STA_REG: usize = 397190;
    const BTST_STA_MEM: usize = 596918;
    const CHK_NO_TRAP: usize = 119831;
    const CLR_REG_BW: usize = 662692;
    const CLR_REG_L: usize = 730812;
    const CLR_MEM_BW: usize = 543617;
    const CLR_MEM_L: usize = 401729;
    const CMP_BW: usize = 512564;
    const CMP_L: usize = 862345;
    const CMPA: usize = 835053;
    const CMPI_REG_BW: usize = 864717;
    const CMPI_REG_L: usize = 302297;
    const CMPI_MEM_BW: usize = 855289;
    const CMPI_MEM_L: usize = 44442;
    const CMPM_BW: usize = 136066;
    const CMPM_L: usize = 384146;
    const DBCC_TRUE: usize = 496704;
    const DBCC_FALSE_BRANCH: usize = 171281;
    const DBCC_FALSE_NO_BRANCH: usize = 542574;
    const DIVS: usize = 784718;
    const DIVU: usize = 743590;
    const EOR_REG_BW: usize = 426586;
    const EOR_REG_L: usize = 488859;
    const EOR_MEM_BW: usize = 861351;
    const EOR_MEM_L: usize = 483435;
    const EORI_REG_BW: usize = 696437;
    const EORI_REG_L: usize = 250599;
    const EORI_MEM_BW: usize = 606096;
    const EORI_MEM_L: usize = 661530;
    const EORICCR: usize = 728585;
    const EORISR: usize = 375726;
    const EXG: usize = 101558;
    const EXT: usize = 595670;
    const JMP_ARI: usize = 489224;
    const JMP_ARIWD: usize = 743171;
    const JMP_ARIWI8: usize = 488573;
    const JMP_ABSSHORT: usize = 877209;
    const JMP_ABSLONG: usize = 886181;
    const JMP_PCIWD: usize = 273180;
    const JMP_PCIWI8: usize = 695225;
    const JSR_ARI: usize = 138035;
    const JSR_ARIWD: usize = 362646;
    const JSR_ARIWI8: usize = 519349;
    const JSR_ABSSHORT: usize = 478046;
    const JSR_ABSLONG: usize = 388519;
    const JSR_PCIWD: usize = 654202;
    const JSR_PCIWI8: usize = 100464;
    const LEA_ARI: usize = 536146;
    const LEA_ARIWD: usize = 828392;
    const LEA_ARIWI8: usize = 445659;
    const LEA_ABSSHORT: usize = 139801;
    const LEA_ABSLONG: usize = 843673;
    const LEA_PCIWD: usize = 521616;
    const LEA_PCIWI8: usize = 225840;
    const LINK: usize = 376912;
    const LSM: usize = 818110;
    const LSR_COUNT: usize = 779748;
    const LSR_BW: usize = 855691;
    const LSR_L: usize = 532406;
    const MOVE_DST_ARIWPR: usize = 387625;
    const MOVE_OTHER: usize = 116022;
    const MOVEA: usize = 307493;
    const MOVECCR: usize = 905177;
    const MOVEFSR_REG: usize = 661047;
    const MOVEFSR_MEM: usize = 531067;
    const MOVESR: usize = 228851;
    const MOVEUSP: usize = 332801;
    const MOVEM_WORD: usize = 692332;
    const MOVEM_LONG: usize = 60842;
    const MOVEM_MTR: usize = 773496;
    const MOVEM_ARI: usize = 327757;
    const MOVEM_ARIWPO: usize = 198314;
    const MOVEM_ARIWPR: usize = 741223;
    const MOVEM_ARIWD: usize = 865981;
    const MOVEM_ARIWI8: usize = 208892;
    const MOVEM_ABSSHORT: usize = 304914;
    const MOVEM_ABSLONG: usize = 552470;
    const MOVEM_PCIWD: usize = 411669;
    const MOVEM_PCIWI8: usize = 880225;
    const MOVEP_RTM_WORD: usize = 660448;
    const MOVEP_RTM_LONG: usize = 700133;
    const MOVEP_MTR_WORD: usize = 525752;
    const MOVEP_MTR_LONG: usize = 121308;
    const MOVEQ: usize = 769785;
    const MULS: usize = 10876;
    const MULU: usize = 158352;
    const NBCD_REG: usize = 297169;
    const NBCD_MEM: usize = 730791;
    const NEG_REG_BW: usize = 295404;
    const NEG_REG_L: usize = 138490;
    const NEG_MEM_BW: usize = 728781;
    const NEG_MEM_L: usize = 452153;
    const NEGX_REG_BW: usize = 869050;
    const NEGX_REG_L: usize = 250869;
    const NEGX_MEM_BW: usize = 385585;
    const NEGX_MEM_L: usize = 486925;
    const NOP: usize = 314688;
    const NOT_REG_BW: usize = 101394;
    const NOT_REG_L: usize = 673473;
    const NOT_MEM_BW: usize = 452823;
    const NOT_MEM_L: usize = 447100;
    const OR_REG_BW: usize = 267934;
    const OR_REG_L: usize = 448603;
    const OR_REG_L_RDIMM: usize = 792891;
    const OR_MEM_BW: usize = 628013;
    const OR_MEM_L: usize = 118903;
    const ORI_REG_BW: usize = 30710;
    const ORI_REG_L: usize = 723170;
    const ORI_MEM_BW: usize = 444731;
    const ORI_MEM_L: usize = 187567;
    const ORICCR: usize = 232738;
    const ORISR: usize = 516876;
    const PEA_ARI: usize = 324332;
    const PEA_ARIWD: usize = 39372;
    const PEA_ARIWI8: usize = 586001;
    const PEA_ABSSHORT: usize = 72651;
    const PEA_ABSLONG: usize = 23774;
    const PEA_PCIWD: usize = 316720;
    const PEA_PCIWI8: usize = 422769;
    const RESET: usize = 275000;
    const ROM: usize = 243257;
    const ROR_COUNT: usize = 374679;
    const ROR_BW: usize = 713816;
    const ROR_L: usize = 525071;
    const ROXM: usize = 138973;
    const ROXR_COUNT: usize = 449950;
    const ROXR_BW: usize = 673406;
    const ROXR_L: usize = 260059;
    const RTE: usize = 735524;
    const RTR: usize = 200470;
    const RTS: usize = 195287;
    const SBCD_REG: usize = 859708;
    const SBCD_MEM: usize = 290704;
    const SCC_REG_FALSE: usize = 394113;
    const SCC_REG_TRUE: usize = 62830;
    const SCC_MEM_FALSE: usize = 642727;
    const SCC_MEM_TRUE: usize = 278196;
    const STOP: usize = 620509;
    const SUB_REG_BW: usize = 15395;
    const SUB_REG_L: usize = 92455;
    const SUB_REG_L_RDIMM: usize = 359339;
    const SUB_MEM_BW: usize = 427993;
    const SUB_MEM_L: usize = 81202;
    const SUBA_WORD: usize = 481545;
    const SUBA_LONG: usize = 680200;
    const SUBA_LONG_RDIMM: usize = 238655;
    const SUBI_REG_BW: usize = 37205;
    const SUBI_REG_L: usize = 557243;
    const SUBI_MEM_BW: usize = 895483;
    const SUBI_MEM_L: usize = 48709;
    const SUBQ_DREG_BW: usize = 779725;
    const SUBQ_AREG_BW: usize = 305849;
    const SUBQ_REG_L: usize = 840203;
    const SUBQ_MEM_BW: usize = 909148;
    const SUBQ_MEM_L: usize = 366442;
    const SUBX_REG_BW: usize = 212164;
    const SUBX_REG_L: usize = 841737;
    const SUBX_MEM_BW: usize = 614990;
    const SUBX_MEM_L: usize = 869298;
    const SWAP: usize = 376325;
    const TAS_REG: usize = 26128;
    const TAS_MEM: usize = 899242;
    const TRAPV_NO_TRAP: usize = 713135;
    const TST_REG_BW: usize = 163126;
    const TST_REG_L: usize = 142458;
    const TST_MEM_BW: usize = 813502;
    const TST_MEM_L: usize = 540379;
    const UNLK: usize = 80735;
}

#[derive(Clone, Debug, Default)]
pub struct Fifth;
impl CpuDetails for Fifth {
    const STACK_FORMAT: StackFormat = StackFormat::MC68000;
    fn vector_execution_time(vector: u8) -> usize { Scc68070::vector_execution_time(vector) }
    const VECTOR_RESET: usize = Scc68070::VECTOR_RESET;
    const EA_ARI: usize = Scc68070::EA_ARI;
    const EA_ARIWPO: usize = Scc68070::EA_ARIWPO;
    const EA_ARIWPR: usize = Scc68070::EA_ARIWPR;
    const EA_ARIWD: usize = Scc68070::EA_ARIWD;
    const EA_ARIWI8: usize = Scc68070::EA_ARIWI8;
    const EA_ABSSHORT: usize = Scc68070::EA_ABSSHORT;
    const EA_ABSLONG: usize = Scc68070::EA_ABSLONG;
    const EA_PCIWD: usize = Scc68070::EA_PCIWD;
    const EA_PCIWI8: usize = Scc68070::EA_PCIWI8;
    const EA_IMMEDIATE: usize = Scc68070::EA_IMMEDIATE;
    const ABCD_REG: usize = Scc68070::ABCD_REG;
    const ABCD_MEM: usize = Scc68070::ABCD_MEM;
    const ADD_REG_BW: usize = Scc68070::ADD_REG_BW;
    const ADD_REG_L: usize = Scc68070::ADD_REG_L;
    const ADD_REG_L_RDIMM: usize = Scc68070::ADD_REG_L_RDIMM;
    const ADD_MEM_BW: usize = Scc68070::ADD_MEM_BW;
    const ADD_MEM_L: usize = Scc68070::ADD_MEM_L;
    const ADDA_WORD: usize = Scc68070::ADDA_WORD;
    const ADDA_LONG: usize = Scc68070::ADDA_LONG;
    const ADDA_LONG_RDIMM: usize = Scc68070::ADDA_LONG_RDIMM;
    const ADDI_REG_BW: usize = Scc68070::ADDI_REG_BW;
    const ADDI_REG_L: usize = Scc68070::ADDI_REG_L;
    const ADDI_MEM_BW: usize = Scc68070::ADDI_MEM_BW;
    const ADDI_MEM_L: usize = Scc68070::ADDI_MEM_L;
    const ADDQ_REG_BW: usize = Scc68070::ADDQ_REG_BW;
    const ADDQ_REG_L: usize = Scc68070::ADDQ_REG_L;
    const ADDQ_MEM_BW: usize = Scc68070::ADDQ_MEM_BW;
    const ADDQ_MEM_L: usize = Scc68070::ADDQ_MEM_L;
    const ADDX_REG_BW: usize = Scc68070::ADDX_REG_BW;
    const ADDX_REG_L: usize = Scc68070::ADDX_REG_L;
    const ADDX_MEM_BW: usize = Scc68070::ADDX_MEM_BW;
    const ADDX_MEM_L: usize = Scc68070::ADDX_MEM_L;
    const AND_REG_BW: usize = Scc68070::AND_REG_BW;
    const AND_REG_L: usize = Scc68070::AND_REG_L;
    const AND_REG_L_RDIMM: usize = Scc68070::AND_REG_L_RDIMM;
    const AND_MEM_BW: usize = Scc68070::AND_MEM_BW;
    const AND_MEM_L: usize = Scc68070::AND_MEM_L;
    const ANDI_REG_BW: usize = Scc68070::ANDI_REG_BW;
    const ANDI_REG_L: usize = Scc68070::ANDI_REG_L;
    const ANDI_MEM_BW: usize = Scc68070::ANDI_MEM_BW;
    const ANDI_MEM_L: usize = Scc68070::ANDI_MEM_L;
    const ANDICCR: usize = Scc68070::ANDICCR;
    const ANDISR: usize = Scc68070::ANDISR;
    const ASM: usize = Scc68070::ASM;
    const ASR_COUNT: usize = Scc68070::ASR_COUNT;
    const ASR_BW: usize = Scc68070::ASR_BW;
    const ASR_L: usize = Scc68070::ASR_L;
    const BCC_BRANCH: usize = Scc68070::BCC_BRANCH;
    const BCC_NO_BRANCH_BYTE: usize = Scc68070::BCC_NO_BRANCH_BYTE;
    const BCC_NO_BRANCH_WORD: usize = Scc68070::BCC_NO_BRANCH_WORD;
    const BCHG_DYN_REG: usize = Scc68070::BCHG_DYN_REG;
    const BCHG_DYN_MEM: usize = Scc68070::BCHG_DYN_MEM;
    const BCHG_STA_REG: usize = Scc68070::BCHG_STA_REG;
    const BCHG_STA_MEM: usize = Scc68070::BCHG_STA_MEM;
    const BCLR_DYN_REG: usize = Scc68070::BCLR_DYN_REG;
    const BCLR_DYN_MEM: usize = Scc68070::BCLR_DYN_MEM;
    const BCLR_STA_REG: usize = Scc68070::BCLR_STA_REG;
    const BCLR_STA_MEM: usize = Scc68070::BCLR_STA_MEM;
    const BRA_BYTE: usize = Scc68070::BRA_BYTE;
    const BRA_WORD: usize = Scc68070::BRA_WORD;
    const BSET_DYN_REG: usize = Scc68070::BSET_DYN_REG;
    const BSET_DYN_MEM: usize = Scc68070::BSET_DYN_MEM;
    const BSET_STA_REG: usize = Scc68070::BSET_STA_REG;
    const BSET_STA_MEM: usize = Scc68070::BSET_STA_MEM;
    const BSR_BYTE: usize = Scc68070::BSR_BYTE;
    const BSR_WORD: usize = Scc68070::BSR_WORD;
    const BTST_DYN_REG: usize = Scc68070::BTST_DYN_REG;
    const BTST_DYN_MEM: usize = Scc68070::BTST_DYN_MEM;
    const BTST_STA_REG: usize = Scc68070::BTST_STA_REG;
    const BTST_STA_MEM: usize = Scc68070::BTST_STA_MEM;
    const CHK_NO_TRAP: usize = Scc68070::CHK_NO_TRAP;
    const CLR_REG_BW: usize = Scc68070::CLR_REG_BW;
    const CLR_REG_L: usize = Scc68070::CLR_REG_L;
    const CLR_MEM_BW: usize = Scc68070::CLR_MEM_BW;
    const CLR_MEM_L: usize = Scc68070::CLR_MEM_L;
    const CMP_BW: usize = Scc68070::CMP_BW;
    const CMP_L: usize = Scc68070::CMP_L;
    const CMPA: usize = Scc68070::CMPA;
    const CMPI_REG_BW: usize = Scc68070::CMPI_REG_BW;
    const CMPI_REG_L: usize = Scc68070::CMPI_REG_L;
    const CMPI_MEM_BW: usize = Scc68070::CMPI_MEM_BW;
    const CMPI_MEM_L: usize = Scc68070::CMPI_MEM_L;
    const CMPM_BW: usize = Scc68070::CMPM_BW;
    const CMPM_L: usize = Scc68070::CMPM_L;
    const DBCC_TRUE: usize = Scc68070::DBCC_TRUE;
    const DBCC_FALSE_BRANCH: usize = Scc68070::DBCC_FALSE_BRANCH;
    const DBCC_FALSE_NO_BRANCH: usize = Scc68070::DBCC_FALSE_NO_BRANCH;
    const DIVS: usize = Scc68070::DIVS;
    const DIVU: usize = Scc68070::DIVU;
    const EOR_REG_BW: usize = Scc68070::EOR_REG_BW;
    const EOR_REG_L: usize = Scc68070::EOR_REG_L;
    const EOR_MEM_BW: usize = Scc68070::EOR_MEM_BW;
    const EOR_MEM_L: usize = Scc68070::EOR_MEM_L;
    const EORI_REG_BW: usize = Scc68070::EORI_REG_BW;
    const EORI_REG_L: usize = Scc68070::EORI_REG_L;
    const EORI_MEM_BW: usize = Scc68070::EORI_MEM_BW;
    const EORI_MEM_L: usize = Scc68070::EORI_MEM_L;
    const EORICCR: usize = Scc68070::EORICCR;
    const EORISR: usize = Scc68070::EORISR;
    const EXG: usize = Scc68070::EXG;
    const EXT: usize = Scc68070::EXT;
    const JMP_ARI: usize = Scc68070::JMP_ARI;
    const JMP_ARIWD: usize = Scc68070::JMP_ARIWD;
    const JMP_ARIWI8: usize = Scc68070::JMP_ARIWI8;
    const JMP_ABSSHORT: usize = Scc68070::JMP_ABSSHORT;
    const JMP_ABSLONG: usize = Scc68070::JMP_ABSLONG;
    const JMP_PCIWD: usize = Scc68070::JMP_PCIWD;
    const JMP_PCIWI8: usize = Scc68070::JMP_PCIWI8;
    const JSR_ARI: usize = Scc68070::JSR_ARI;
    const JSR_ARIWD: usize = Scc68070::JSR_ARIWD;
    const JSR_ARIWI8: usize = Scc68070::JSR_ARIWI8;
    const JSR_ABSSHORT: usize = Scc68070::JSR_ABSSHORT;
    const JSR_ABSLONG: usize = Scc68070::JSR_ABSLONG;
    const JSR_PCIWD: usize = Scc68070::JSR_PCIWD;
    const JSR_PCIWI8: usize = Scc68070::JSR_PCIWI8;
    const LEA_ARI: usize = Scc68070::LEA_ARI;
    const LEA_ARIWD: usize = Scc68070::LEA_ARIWD;
    const LEA_ARIWI8: usize = Scc68070::LEA_ARIWI8;
    const LEA_ABSSHORT: usize = Scc68070::LEA_ABSSHORT;
    const LEA_ABSLONG: usize = Scc68070::LEA_ABSLONG;
    const LEA_PCIWD: usize = Scc68070::LEA_PCIWD;
    const LEA_PCIWI8: usize = Scc68070::LEA_PCIWI8;
    const LINK: usize = Scc68070::LINK;
    const LSM: usize = Scc68070::LSM;
    const LSR_COUNT: usize = Scc68070::LSR_COUNT;
    const LSR_BW: usize = Scc68070::LSR_BW;
    const LSR_L: usize = Scc68070::LSR_L;
    const MOVE_DST_ARIWPR: usize = Scc68070::MOVE_DST_ARIWPR;
    const MOVE_OTHER: usize = Scc68070::MOVE_OTHER;
    const MOVEA: usize = Scc68070::MOVEA;
    const MOVECCR: usize = Scc68070::MOVECCR;
    const MOVEFSR_REG: usize = Scc68070::MOVEFSR_REG;
    const MOVEFSR_MEM: usize = Scc68070::MOVEFSR_MEM;
    const MOVESR: usize = Scc68070::MOVESR;
    const MOVEUSP: usize = Scc68070::MOVEUSP;
    const MOVEM_WORD: usize = Scc68070::MOVEM_WORD;
    const MOVEM_LONG: usize = Scc68070::MOVEM_LONG;
    const MOVEM_MTR: usize = Scc68070::MOVEM_MTR;
    const MOVEM_ARI: usize = Scc68070::MOVEM_ARI;
    const MOVEM_ARIWPO: usize = Scc68070::MOVEM_ARIWPO;
    const MOVEM_ARIWPR: usize = Scc68070::MOVEM_ARIWPR;
    const MOVEM_ARIWD: usize = Scc68070::MOVEM_ARIWD;
    const MOVEM_ARIWI8: usize = Scc68070::MOVEM_ARIWI8;
    const MOVEM_ABSSHORT: usize = Scc68070::MOVEM_ABSSHORT;
    const MOVEM_ABSLONG: usize = Scc68070::MOVEM_ABSLONG;
    const MOVEM_PCIWD: usize = Scc68070::MOVEM_PCIWD;
    const MOVEM_PCIWI8: usize = Scc68070::MOVEM_PCIWI8;
    const MOVEP_RTM_WORD: usize = Scc68070::MOVEP_RTM_WORD;
    const MOVEP_RTM_LONG: usize = Scc68070::MOVEP_RTM_LONG;
    const MOVEP_MTR_WORD: usize = Scc68070::MOVEP_MTR_WORD;
    const MOVEP_MTR_LONG: usize = Scc68070::MOVEP_MTR_LONG;
    const MOVEQ: usize = Scc68070::MOVEQ;
    const MULS: usize = Scc68070::MULS;
    const MULU: usize = Scc68070::MULU;
    const NBCD_REG: usize = Scc68070::NBCD_REG;
    const NBCD_MEM: usize = Scc68070::NBCD_MEM;
    const NEG_REG_BW: usize = Scc68070::NEG_REG_BW;
    const NEG_REG_L: usize = Scc68070::NEG_REG_L;
    const NEG_MEM_BW: usize = Scc68070::NEG_MEM_BW;
    const NEG_MEM_L: usize = Scc68070::NEG_MEM_L;
    const NEGX_REG_BW: usize = Scc68070::NEGX_REG_BW;
    const NEGX_REG_L: usize = Scc68070::NEGX_REG_L;
    const NEGX_MEM_BW: usize = Scc68070::NEGX_MEM_BW;
    const NEGX_MEM_L: usize = Scc68070::NEGX_MEM_L;
    const NOP: usize = Scc68070::NOP;
    const NOT_REG_BW: usize = Scc68070::NOT_REG_BW;
    const NOT_REG_L: usize = Scc68070::NOT_REG_L;
    const NOT_MEM_BW: usize = Scc68070::NOT_MEM_BW;
    const NOT_MEM_L: usize = Scc68070::NOT_MEM_L;
    const OR_REG_BW: usize = Scc68070::OR_REG_BW;
    const OR_REG_L: usize = Scc68070::OR_REG_L;
    const OR_REG_L_RDIMM: usize = Scc68070::OR_REG_L_RDIMM;
    const OR_MEM_BW: usize = Scc68070::OR_MEM_BW;
    const OR_MEM_L: usize = Scc68070::OR_MEM_L;
    const ORI_REG_BW: usize = Scc68070::ORI_REG_BW;
    const ORI_REG_L: usize = Scc68070::ORI_REG_L;
    const ORI_MEM_BW: usize = Scc68070::ORI_MEM_BW;
    const ORI_MEM_L: usize = Scc68070::ORI_MEM_L;
    const ORICCR: usize = Scc68070::ORICCR;
    const ORISR: usize = Scc68070::ORISR;
    const PEA_ARI: usize = Scc68070::PEA_ARI;
    const PEA_ARIWD: usize = Scc68070::PEA_ARIWD;
    const PEA_ARIWI8: usize = Scc68070::PEA_ARIWI8;
    const PEA_ABSSHORT: usize = Scc68070::PEA_ABSSHORT;
    const PEA_ABSLONG: usize = Scc68070::PEA_ABSLONG;
    const PEA_PCIWD: usize = Scc68070::PEA_PCIWD;
    const PEA_PCIWI8: usize = Scc68070::PEA_PCIWI8;
    const RESET: usize = Scc68070::RESET;
    const ROM: usize = Scc68070::ROM;
    const ROR_COUNT: usize = Scc68070::ROR_COUNT;
    const ROR_BW: usize = Scc68070::ROR_BW;
    const ROR_L: usize = Scc68070::ROR_L;
    const ROXM: usize = Scc68070::ROXM;
    const ROXR_COUNT: usize = Scc68070::ROXR_COUNT;
    const ROXR_BW: usize = Scc68070::ROXR_BW;
    const ROXR_L: usize = Scc68070::ROXR_L;
    const RTE: usize = Scc68070::RTE;
    const RTR: usize = Scc68070::RTR;
    const RTS: usize = Scc68070::RTS;
    const SBCD_REG: usize = Scc68070::SBCD_REG;
    const SBCD_MEM: usize = Scc68070::SBCD_MEM;
    const SCC_REG_FALSE: usize = Scc68070::SCC_REG_FALSE;
    const SCC_REG_TRUE: usize = Scc68070::SCC_REG_TRUE;
    const SCC_MEM_FALSE: usize = Scc68070::SCC_MEM_FALSE;
    const SCC_MEM_TRUE: usize = Scc68070::SCC_MEM_TRUE;
    const STOP: usize = Scc68070::STOP;
    const SUB_REG_BW: usize = Scc68070::SUB_REG_BW;
    const SUB_REG_L: usize = Scc68070::SUB_REG_L;
    const SUB_REG_L_RDIMM: usize = Scc68070::SUB_REG_L_RDIMM;
    const SUB_MEM_BW: usize = Scc68070::SUB_MEM_BW;
    const SUB_MEM_L: usize = Scc68070::SUB_MEM_L;
    const SUBA_WORD: usize = Scc68070::SUBA_WORD;
    const SUBA_LONG: usize = Scc68070::SUBA_LONG;
    const SUBA_LONG_RDIMM: usize = Scc68070::SUBA_LONG_RDIMM;
    const SUBI_REG_BW: usize = Scc68070::SUBI_REG_BW;
    const SUBI_REG_L: usize = Scc68070::SUBI_REG_L;
    const SUBI_MEM_BW: usize = Scc68070::SUBI_MEM_BW;
    const SUBI_MEM_L: usize = Scc68070::SUBI_MEM_L;
    const SUBQ_DREG_BW: usize = Scc68070::SUBQ_DREG_BW;
    const SUBQ_AREG_BW: usize = Scc68070::SUBQ_AREG_BW;
    const SUBQ_REG_L: usize = Scc68070::SUBQ_REG_L;
    const SUBQ_MEM_BW: usize = Scc68070::SUBQ_MEM_BW;
    const SUBQ_MEM_L: usize = Scc68070::SUBQ_MEM_L;
    const SUBX_REG_BW: usize = Scc68070::SUBX_REG_BW;
    const SUBX_REG_L: usize = Scc68070::SUBX_REG_L;
    const SUBX_MEM_BW: usize = Scc68070::SUBX_MEM_BW;
    const SUBX_MEM_L: usize = Scc68070::SUBX_MEM_L;
    const SWAP: usize = Scc68070::SWAP;
    const TAS_REG: usize = Scc68070::TAS_REG;
    const TAS_MEM: usize = Scc68070::TAS_MEM;
    const TRAPV_NO_TRAP: usize = Scc68070::TRAPV_NO_TRAP;
    const TST_REG_BW: usize = Scc68070::TST_REG_BW;
    const TST_REG_L: usize = Scc68070::TST_REG_L;
    const TST_MEM_BW: usize = Scc68070::TST_MEM_BW;
    const TST_MEM_L: usize = Scc68070::TST_MEM_L;
    const UNLK: usize = Scc68070::UNLK;
}

#[derive(Clone, Debug, Default)]
pub struct Sixth;
impl CpuDetails for Sixth {
    const STACK_FORMAT: StackFormat = StackFormat::SCC68070;
    fn vector_execution_time(vector: u8) -> usize { Mc68000::vector_execution_time(vector) }
    const VECTOR_RESET: usize = Mc68000::VECTOR_RESET;
    const EA_ARI: usize = Mc68000::EA_ARI;
    const EA_ARIWPO: usize = Mc68000::EA_ARIWPO;
    const EA_ARIWPR: usize = Mc68000::EA_ARIWPR;
    const EA_ARIWD: usize = Mc68000::EA_ARIWD;
    const EA_ARIWI8: usize = Mc68000::EA_ARIWI8;
    const EA_ABSSHORT: usize = Mc68000::EA_ABSSHORT;
    const EA_ABSLONG: usize = Mc68000::EA_ABSLONG;
    const EA_PCIWD: usize = Mc68000::EA_PCIWD;
    const EA_PCIWI8: usize = Mc68000::EA_PCIWI8;
    const EA_IMMEDIATE: usize = Mc68000::EA_IMMEDIATE;
    const ABCD_REG: usize = Mc68000::ABCD_REG;
    const ABCD_MEM: usize = Mc68000::ABCD_MEM;
    const ADD_REG_BW: usize = Mc68000::ADD_REG_BW;
    const ADD_REG_L: usize = Mc68000::ADD_REG_L;
    const ADD_REG_L_RDIMM: usize = Mc68000::ADD_REG_L_RDIMM;
    const ADD_MEM_BW: usize = Mc68000::ADD_MEM_BW;
    const ADD_MEM_L: usize = Mc68000::ADD_MEM_L;
    const ADDA_WORD: usize = Mc68000::ADDA_WORD;
    const ADDA_LONG: usize = Mc68000::ADDA_LONG;
    const ADDA_LONG_RDIMM: usize = Mc68000::ADDA_LONG_RDIMM;
    const ADDI_REG_BW: usize = Mc68000::ADDI_REG_BW;
    const ADDI_REG_L: usize = Mc68000::ADDI_REG_L;
    const ADDI_MEM_BW: usize = Mc68000::ADDI_MEM_BW;
    const ADDI_MEM_L: usize = Mc68000::ADDI_MEM_L;
    const ADDQ_REG_BW: usize = Mc68000::ADDQ_REG_BW;
    const ADDQ_REG_L: usize = Mc68000::ADDQ_REG_L;
    const ADDQ_MEM_BW: usize = Mc68000::ADDQ_MEM_BW;
    const ADDQ_MEM_L: usize = Mc68000::ADDQ_MEM_L;
    const ADDX_REG_BW: usize = Mc68000::ADDX_REG_BW;
    const ADDX_REG_L: usize = Mc68000::ADDX_REG_L;
    const ADDX_MEM_BW: usize = Mc68000::ADDX_MEM_BW;
    const ADDX_MEM_L: usize = Mc68000::ADDX_MEM_L;
    const AND_REG_BW: usize = Mc68000::AND_REG_BW;
    const AND_REG_L: usize = Mc68000::AND_REG_L;
    const AND_REG_L_RDIMM: usize = Mc68000::AND_REG_L_RDIMM;
    const AND_MEM_BW: usize = Mc68000::AND_MEM_BW;
    const AND_MEM_L: usize = Mc68000::AND_MEM_L;
    const ANDI_REG_BW: usize = Mc68000::ANDI_REG_BW;
    const ANDI_REG_L: usize = Mc68000::ANDI_REG_L;
    const ANDI_MEM_BW: usize = Mc68000::ANDI_MEM_BW;
    const ANDI_MEM_L: usize = Mc68000::ANDI_MEM_L;
    const ANDICCR: usize = Mc68000::ANDICCR;
    const ANDISR: usize = Mc68000::ANDISR;
    const ASM: usize = Mc68000::ASM;
    const ASR_COUNT: usize = Mc68000::ASR_COUNT;
    const ASR_BW: usize = Mc68000::ASR_BW;
    const ASR_L: usize = Mc68000::ASR_L;
    const BCC_BRANCH: usize = Mc68000::BCC_BRANCH;
    const BCC_NO_BRANCH_BYTE: usize = Mc68000::BCC_NO_BRANCH_BYTE;
    const BCC_NO_BRANCH_WORD: usize = Mc68000::BCC_NO_BRANCH_WORD;
    const BCHG_DYN_REG: usize = Mc68000::BCHG_DYN_REG;
    const BCHG_DYN_MEM: usize = Mc68000::BCHG_DYN_MEM;
    const BCHG_STA_REG: usize = Mc68000::BCHG_STA_REG;
    const BCHG_STA_MEM: usize = Mc68000::BCHG_STA_MEM;
    const BCLR_DYN_REG: usize = Mc68000::BCLR_DYN_REG;
    const BCLR_DYN_MEM: usize = Mc68000::BCLR_DYN_MEM;
    const BCLR_STA_REG: usize = Mc68000::BCLR_STA_REG;
    const BCLR_STA_MEM: usize = Mc68000::BCLR_STA_MEM;
    const BRA_BYTE: usize = Mc68000::BRA_BYTE;
    const BRA_WORD: usize = Mc68000::BRA_WORD;
    const BSET_DYN_REG: usize = Mc68000::BSET_DYN_REG;
    const BSET_DYN_MEM: usize = Mc68000::BSET_DYN_MEM;
    const BSET_STA_REG: usize = Mc68000::BSET_STA_REG;
    const BSET_STA_MEM: usize = Mc68000::BSET_STA_MEM;
    const BSR_BYTE: usize = Mc68000::BSR_BYTE;
    const BSR_WORD: usize = Mc68000::BSR_WORD;
    const BTST_DYN_REG: usize = Mc68000::BTST_DYN_REG;
    const BTST_DYN_MEM: usize = Mc68000::BTST_DYN_MEM;
    const BTST_STA_REG: usize = Mc68000::BTST_STA_REG;
    const BTST_STA_MEM: usize = Mc68000::BTST_STA_MEM;
    const CHK_NO_TRAP: usize = Mc68000::CHK_NO_TRAP;
    const CLR_REG_BW: usize = Mc68000::CLR_REG_BW;
    const CLR_REG_L: usize = Mc68000::CLR_REG_L;
    const CLR_MEM_BW: usize = Mc68000::CLR_MEM_BW;
    const CLR_MEM_L: usize = Mc68000::CLR_MEM_L;
    const CMP_BW: usize = Mc68000::CMP_BW;
    const CMP_L: usize = Mc68000::CMP_L;
    const CMPA: usize = Mc68000::CMPA;
    const CMPI_REG_BW: usize = Mc68000::CMPI_REG_BW;
    const CMPI_REG_L: usize = Mc68000::CMPI_REG_L;
    const CMPI_MEM_BW: usize = Mc68000::CMPI_MEM_BW;
    const CMPI_MEM_L: usize = Mc68000::CMPI_MEM_L;
    const CMPM_BW: usize = Mc68000::CMPM_BW;
    const CMPM_L: usize = Mc68000::CMPM_L;
    const DBCC_TRUE: usize = Mc68000::DBCC_TRUE;
    const DBCC_FALSE_BRANCH: usize = Mc68000::DBCC_FALSE_BRANCH;
    const DBCC_FALSE_NO_BRANCH: usize = Mc68000::DBCC_FALSE_NO_BRANCH;
    const DIVS: usize = Mc68000::DIVS;
    const DIVU: usize = Mc68000::DIVU;
    const EOR_REG_BW: usize = Mc68000::EOR_REG_BW;
    const EOR_REG_L: usize = Mc68000::EOR_REG_L;
    const EOR_MEM_BW: usize = Mc68000::EOR_MEM_BW;
    const EOR_MEM_L: usize = Mc68000::EOR_MEM_L;
    const EORI_REG_BW: usize = Mc68000::EORI_REG_BW;
    const EORI_REG_L: usize = Mc68000::EORI_REG_L;
    const EORI_MEM_BW: usize = Mc68000::EORI_MEM_BW;
    const EORI_MEM_L: usize = Mc68000::EORI_MEM_L;
    const EORICCR: usize = Mc68000::EORICCR;
    const EORISR: usize = Mc68000::EORISR;
    const EXG: usize = Mc68000::EXG;
    const EXT: usize = Mc68000::EXT;
    const JMP_ARI: usize = Mc68000::JMP_ARI;
    const JMP_ARIWD: usize = Mc68000::JMP_ARIWD;
    const JMP_ARIWI8: usize = Mc68000::JMP_ARIWI8;
    const JMP_ABSSHORT: usize = Mc68000::JMP_ABSSHORT;
    const JMP_ABSLONG: usize = Mc68000::JMP_ABSLONG;
    const JMP_PCIWD: usize = Mc68000::JMP_PCIWD;
    const JMP_PCIWI8: usize = Mc68000::JMP_PCIWI8;
    const JSR_ARI: usize = Mc68000::JSR_ARI;
    const JSR_ARIWD: usize = Mc68000::JSR_ARIWD;
    const JSR_ARIWI8: usize = Mc68000::JSR_ARIWI8;
    const JSR_ABSSHORT: usize = Mc68000::JSR_ABSSHORT;
    const JSR_ABSLONG: usize = Mc68000::JSR_ABSLONG;
    const JSR_PCIWD: usize = Mc68000::JSR_PCIWD;
    const JSR_PCIWI8: usize = Mc68000::JSR_PCIWI8;
    const LEA_ARI: usize = Mc68000::LEA_ARI;
    const LEA_ARIWD: usize = Mc68000::LEA_ARIWD;
    const LEA_ARIWI8: usize = Mc68000::LEA_ARIWI8;
    const LEA_ABSSHORT: usize = Mc68000::LEA_ABSSHORT;
    const LEA_ABSLONG: usize = Mc68000::LEA_ABSLONG;
    const LEA_PCIWD: usize = Mc68000::LEA_PCIWD;
    const LEA_PCIWI8: usize = Mc68000::LEA_PCIWI8;
    const LINK: usize = Mc68000::LINK;
    const LSM: usize = Mc68000::LSM;
    const LSR_COUNT: usize = Mc68000::LSR_COUNT;
    const LSR_BW: usize = Mc68000::LSR_BW;
    const LSR_L: usize = Mc68000::LSR_L;
    const MOVE_DST_ARIWPR: usize = Mc68000::MOVE_DST_ARIWPR;
    const MOVE_OTHER: usize = Mc68000::MOVE_OTHER;
    const MOVEA: usize = Mc68000::MOVEA;
    const MOVECCR: usize = Mc68000::MOVECCR;
    const MOVEFSR_REG: usize = Mc68000::MOVEFSR_REG;
    const MOVEFSR_MEM: usize = Mc68000::MOVEFSR_MEM;
    const MOVESR: usize = Mc68000::MOVESR;
    const MOVEUSP: usize = Mc68000::MOVEUSP;
    const MOVEM_WORD: usize = Mc68000::MOVEM_WORD;
    const MOVEM_LONG: usize = Mc68000::MOVEM_LONG;
    const MOVEM_MTR: usize = Mc68000::MOVEM_MTR;
    const MOVEM_ARI: usize = Mc68000::MOVEM_ARI;
    const MOVEM_ARIWPO: usize = Mc68000::MOVEM_ARIWPO;
    const MOVEM_ARIWPR: usize = Mc68000::MOVEM_ARIWPR;
    const MOVEM_ARIWD: usize = Mc68000::MOVEM_ARIWD;
    const MOVEM_ARIWI8: usize = Mc68000::MOVEM_ARIWI8;
    const MOVEM_ABSSHORT: usize = Mc68000::MOVEM_ABSSHORT;
    const MOVEM_ABSLONG: usize = Mc68000::MOVEM_ABSLONG;
    const MOVEM_PCIWD: usize = Mc68000::MOVEM_PCIWD;
    const MOVEM_PCIWI8: usize = Mc68000::MOVEM_PCIWI8;
    const MOVEP_RTM_WORD: usize = Mc68000::MOVEP_RTM_WORD;
    const MOVEP_RTM_LONG: usize = Mc68000::MOVEP_RTM_LONG;
    const MOVEP_MTR_WORD: usize = Mc68000::MOVEP_MTR_WORD;
    const MOVEP_MTR_LONG: usize = Mc68000::MOVEP_MTR_LONG;
    const MOVEQ: usize = Mc68000::MOVEQ;
    const MULS: usize = Mc68000::MULS;
    const MULU: usize = Mc68000::MULU;
    const NBCD_REG: usize = Mc68000::NBCD_REG;
    const NBCD_MEM: usize = Mc68000::NBCD_MEM;
    const NEG_REG_BW: usize = Mc68000::NEG_REG_BW;
    const NEG_REG_L: usize = Mc68000::NEG_REG_L;
    const NEG_MEM_BW: usize = Mc68000::NEG_MEM_BW;
    const NEG_MEM_L: usize = Mc68000::NEG_MEM_L;
    const NEGX_REG_BW: usize = Mc68000::NEGX_REG_BW;
    const NEGX_REG_L: usize = Mc68000::NEGX_REG_L;
    const NEGX_MEM_BW: usize = Mc68000::NEGX_MEM_BW;
    const NEGX_MEM_L: usize = Mc68000::NEGX_MEM_L;
    const NOP: usize = Mc68000::NOP;
    const NOT_REG_BW: usize = Mc68000::NOT_REG_BW;
    const NOT_REG_L: usize = Mc68000::NOT_REG_L;
    const NOT_MEM_BW: usize = Mc68000::NOT_MEM_BW;
    const NOT_MEM_L: usize = Mc68000::NOT_MEM_L;
    const OR_REG_BW: usize = Mc68000::OR_REG_BW;
    const OR_REG_L: usize = Mc68000::OR_REG_L;
    const OR_REG_L_RDIMM: usize = Mc68000::OR_REG_L_RDIMM;
    const OR_MEM_BW: usize = Mc68000::OR_MEM_BW;
    const OR_MEM_L: usize = Mc68000::OR_MEM_L;
    const ORI_REG_BW: usize = Mc68000::ORI_REG_BW;
    const ORI_REG_L: usize = Mc68000::ORI_REG_L;
    const ORI_MEM_BW: usize = Mc68000::ORI_MEM_BW;
    const ORI_MEM_L: usize = Mc68000::ORI_MEM_L;
    const ORICCR: usize = Mc68000::ORICCR;
    const ORISR: usize = Mc68000::ORISR;
    const PEA_ARI: usize = Mc68000::PEA_ARI;
    const PEA_ARIWD: usize = Mc68000::PEA_ARIWD;
    const PEA_ARIWI8: usize = Mc68000::PEA_ARIWI8;
    const PEA_ABSSHORT: usize = Mc68000::PEA_ABSSHORT;
    const PEA_ABSLONG: usize = Mc68000::PEA_ABSLONG;
    const PEA_PCIWD: usize = Mc68000::PEA_PCIWD;
    const PEA_PCIWI8: usize = Mc68000::PEA_PCIWI8;
    const RESET: usize = Mc68000::RESET;
    const ROM: usize = Mc68000::ROM;
    const ROR_COUNT: usize = Mc68000::ROR_COUNT;
    const ROR_BW: usize = Mc68000::ROR_BW;
    const ROR_L: usize = Mc68000::ROR_L;
    const ROXM: usize = Mc68000::ROXM;
    const ROXR_COUNT: usize = Mc68000::ROXR_COUNT;
    const ROXR_BW: usize = Mc68000::ROXR_BW;
    const ROXR_L: usize = Mc68000::ROXR_L;
    const RTE: usize = Mc68000::RTE;
    const RTR: usize = Mc68000::RTR;
    const RTS: usize = Mc68000::RTS;
    const SBCD_REG: usize = Mc68000::SBCD_REG;
    const SBCD_MEM: usize = Mc68000::SBCD_MEM;
    const SCC_REG_FALSE: usize = Mc68000::SCC_REG_FALSE;
    const SCC_REG_TRUE: usize = Mc68000::SCC_REG_TRUE;
    const SCC_MEM_FALSE: usize = Mc68000::SCC_MEM_FALSE;
    const SCC_MEM_TRUE: usize = Mc68000::SCC_MEM_TRUE;
    const STOP: usize = Mc68000::STOP;
    const SUB_REG_BW: usize = Mc68000::SUB_REG_BW;
    const SUB_REG_L: usize = Mc68000::SUB_REG_L;
    const SUB_REG_L_RDIMM: usize = Mc68000::SUB_REG_L_RDIMM;
    const SUB_MEM_BW: usize = Mc68000::SUB_MEM_BW;
    const SUB_MEM_L: usize = Mc68000::SUB_MEM_L;
    const SUBA_WORD: usize = Mc68000::SUBA_WORD;
    const SUBA_LONG: usize = Mc68000::SUBA_LONG;
    const SUBA_LONG_RDIMM: usize = Mc68000::SUBA_LONG_RDIMM;
    const SUBI_REG_BW: usize = Mc68000::SUBI_REG_BW;
    const SUBI_REG_L: usize = Mc68000::SUBI_REG_L;
    const SUBI_MEM_BW: usize = Mc68000::SUBI_MEM_BW;
    const SUBI_MEM_L: usize = Mc68000::SUBI_MEM_L;
    const SUBQ_DREG_BW: usize = Mc68000::SUBQ_DREG_BW;
    const SUBQ_AREG_BW: usize = Mc68000::SUBQ_AREG_BW;
    const SUBQ_REG_L: usize = Mc68000::SUBQ_REG_L;
    const SUBQ_MEM_BW: usize = Mc68000::SUBQ_MEM_BW;
    const SUBQ_MEM_L: usize = Mc68000::SUBQ_MEM_L;
    const SUBX_REG_BW: usize = Mc68000::SUBX_REG_BW;
    const SUBX_REG_L: usize = Mc68000::SUBX_REG_L;
    const SUBX_MEM_BW: usize = Mc68000::SUBX_MEM_BW;
    const SUBX_MEM_L: usize = Mc68000::SUBX_MEM_L;
    const SWAP: usize = Mc68000::SWAP;
    const TAS_REG: usize = Mc68000::TAS_REG;
    const TAS_MEM: usize = Mc68000::TAS_MEM;
    const TRAPV_NO_TRAP: usize = Mc68000::TRAPV_NO_TRAP;
    const TST_REG_BW: usize = Mc68000::TST_REG_BW;
    const TST_REG_L: usize = Mc68000::TST_REG_L;
    const TST_MEM_BW: usize = Mc68000::TST_MEM_BW;
    const TST_MEM_L: usize = Mc68000::TST_MEM_L;
    const UNLK: usize = Mc68000::UNLK;
}
