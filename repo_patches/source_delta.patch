From 60035997339fcee1e7c6f6909b16cd9754fdc2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 001/101] fix: read type 2.2 packet headers with the FSC-0045
 layout

The zone and point fields of a type 2.2 header are at 34/36 and 4/6; they were
read at the type 2+ offsets, which hold the domain names in a 2.2 packet.
---
 src/crashmail/pkt.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3d9e0fa..2144d9d 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -152,15 +152,15 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    {
       /* PktOrig och PktDest */
 
-      PktOrig.Zone  = getuword(PktHeader,PKTHEADER_ORIGZONE);
-      PktOrig.Net   = getuword(PktHeader,PKTHEADER_ORIGNET);
-      PktOrig.Node  = getuword(PktHeader,PKTHEADER_ORIGNODE);
-      PktOrig.Point = getuword(PktHeader,PKTHEADER_ORIGPOINT);
-
-      PktDest.Zone  = getuword(PktHeader,PKTHEADER_DESTZONE);
-      PktDest.Net   = getuword(PktHeader,PKTHEADER_DESTNET);
-      PktDest.Node  = getuword(PktHeader,PKTHEADER_DESTNODE);
-      PktDest.Point = getuword(PktHeader,PKTHEADER_DESTPOINT);
+      PktOrig.Zone  = getuword(PktHeader,PKTHEADER45_ORIGZONE);
+      PktOrig.Net   = getuword(PktHeader,PKTHEADER45_ORIGNET);
+      PktOrig.Node  = getuword(PktHeader,PKTHEADER45_ORIGNODE);
+      PktOrig.Point = getuword(PktHeader,PKTHEADER45_ORIGPOINT);
+
+      PktDest.Zone  = getuword(PktHeader,PKTHEADER45_DESTZONE);
+      PktDest.Net   = getuword(PktHeader,PKTHEADER45_DESTNET);
+      PktDest.Node  = getuword(PktHeader,PKTHEADER45_DESTNODE);
+      PktDest.Point = getuword(PktHeader,PKTHEADER45_DESTPOINT);
 
 
       pkt_5d=TRUE;
-- 
2.43.0


From 77312c2aefd8d5fee32657242ee652bcf110f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 002/101] fix: never give two outgoing packets the same number

The packet serial number wrapped after 256 packets in a second and was reset
whenever an area was auto-added (the counter was shared with MakeDirectory), so
a later packet could overwrite one that was waiting to be sent.
---
 src/crashmail/handle.c |  2 +-
 src/crashmail/pkt.c    | 61 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 441d6ba..793ba82 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -94,7 +94,7 @@ bool AddTossNode(struct Area *area,struct ConfigNode *cnode,uint16_t flags)
    return(TRUE);
 }
 
-time_t lastt;
+static time_t lastt;
 
 void MakeDirectory(char *dest,uint32_t destsize,char *defdir,char *areaname)
 {
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 2144d9d..830e2ff 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -558,8 +558,37 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
    return(NULL);
 }
 
-time_t lastt;
-uint32_t serial;
+static time_t lastt;
+static uint32_t serial;
+
+/* Is this packet number used by a packet that has not been sent yet? */
+static bool PktNumUsed(uint32_t num)
+{
+   char buf[200],name[20];
+   struct jbList list;
+   struct osFileEntry *fe;
+   bool used;
+
+   sprintf(name,"%08x.newpkt",num);
+   MakeFullPath(config.cfg_PacketCreate,name,buf,200);
+   if(osExists(buf)) return(TRUE);
+
+   sprintf(name,"%08x.pkt",num);
+   MakeFullPath(config.cfg_PacketDir,name,buf,200);
+   if(osExists(buf)) return(TRUE);
+
+   if(!osReadDir(config.cfg_PacketDir,&list,IsPktTmp))
+      return(FALSE);
+
+   used=FALSE;
+
+   for(fe=(struct osFileEntry *)list.First;fe;fe=fe->Next)
+      if(strnicmp(fe->Name,name,8)==0) used=TRUE;
+
+   jbFreeList(&list);
+
+   return(used);
+}
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
@@ -573,15 +602,25 @@ struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D
    do
    {
       t=time(NULL);
-      if(t == lastt) serial++;
-      else serial=0;
-      if(serial == 256) serial=0;
-      lastt=t; 
-      num = (t<<8) + serial;
-      sprintf(buf2,"%08x.newpkt",num);
-      
-      MakeFullPath(config.cfg_PacketCreate,buf2,buf,100);
-   } while(osExists(buf));
+
+      /* Never use the same number twice in a run */
+
+      if(t > lastt)
+      {
+         lastt=t;
+         serial=0;
+      }
+      else if(++serial == 256)
+      {
+         lastt++;
+         serial=0;
+      }
+
+      num = (lastt<<8) + serial;
+   } while(PktNumUsed(num));
+
+   sprintf(buf2,"%08x.newpkt",num);
+   MakeFullPath(config.cfg_PacketCreate,buf2,buf,100);
 
    if(!(pkt=(struct Pkt *)osAllocCleared(sizeof(struct Pkt))))
    {
-- 
2.43.0


From fdc1cda8759ff77640b2d1ea416357614a641da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:55 +0000
Subject: [PATCH 003/101] fix: do not apply an earlier message's SEEN-BY check
 to IGNORESEENBY areas

The per-node IsInSeenBy mark was only reset for areas that check SEEN-BY, so
a mark left by the previous message suppressed delivery in IGNORESEENBY areas.
---
 src/crashmail/handle.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 793ba82..ba1d242 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -617,17 +617,16 @@ bool HandleEchomail(struct MemMessage *mm)
 
    /* Check if a node already is in seen-by */
 
+   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
+      temptnode->ConfigNode->IsInSeenBy=FALSE;
+
    if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
    {
       for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
-      {
-         temptnode->ConfigNode->IsInSeenBy=FALSE;
-
          if(temptnode->ConfigNode->Node.Zone == temparea->Aka->Node.Zone)
             if(temptnode->ConfigNode->Node.Point==0)
                if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node))
                   temptnode->ConfigNode->IsInSeenBy=TRUE;
-      }
    }
 
    /* Add nodes to seen-by */
-- 
2.43.0


From 7c28817381b35abcdf0ffa3a0b886bcda161efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:52 +0000
Subject: [PATCH 004/101] fix: end the last line of a message before control
 lines are added

Echomail whose text did not end with CR got its SEEN-BY (or PATH) glued to the
last line; netmail longer than one text chunk got its Via line glued, because
the first chunk was looked at instead of the last.
---
 src/crashmail/handle.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index ba1d242..3f7c0e7 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -516,6 +516,28 @@ char *StripRe(char *str)
    return (str);
 }
 
+/* Add CR if last line doesn't end with CR. LFs after it are ignored */
+static bool EndLastLine(struct MemMessage *mm)
+{
+   struct TextChunk *chunk;
+   uint32_t len;
+
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+   if(!chunk)
+      return(TRUE);
+
+   len=chunk->Length;
+
+   while(len != 0 && chunk->Data[len-1] == 10)
+      len--;
+
+   if(len == 0 || chunk->Data[len-1] == 13 || chunk->Data[len-1] == 0)
+      return(TRUE);
+
+   return mmAddBuf(&mm->TextChunks,"\x0d",1);
+}
+
 bool HandleEchomail(struct MemMessage *mm)
 {
    struct Area *temparea;
@@ -526,6 +548,11 @@ bool HandleEchomail(struct MemMessage *mm)
 
    mm->Type=PKTS_ECHOMAIL;
 
+   /* SEEN-BY and PATH must start on a line of their own */
+
+   if(!EndLastLine(mm))
+      return(FALSE);
+
    /* Find orignode */
 
    for(tempcnode=(struct ConfigNode *)config.CNodeList.First;tempcnode;tempcnode=tempcnode->Next)
@@ -1164,13 +1191,8 @@ bool HandleNetmail(struct MemMessage *mm)
 
    /* Add CR if last line doesn't end with CR */
 
-   chunk=(struct TextChunk *)mm->TextChunks.First;
-
-   if(chunk && chunk->Length!=0)
-   {
-      if(chunk->Data[chunk->Length-1] != 13 && chunk->Data[chunk->Length-1])
-         mmAddBuf(&mm->TextChunks,"\x0d",1);
-   }
+   if(!EndLastLine(mm))
+      return(FALSE);
 
 	/* Filter */
 
-- 
2.43.0


From b5354039cc947dae2aca9d89d68e4f8e2612322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:22 +0000
Subject: [PATCH 005/101] fix: auto-added areas never share a messagebase path

Area names that differ only in characters not allowed in file names (or by more
than fits) were given the same path, after which the configuration was refused
as invalid.
---
 src/crashmail/handle.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 3f7c0e7..2e4444b 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -144,6 +144,16 @@ void MakeDirectory(char *dest,uint32_t destsize,char *defdir,char *areaname)
    dest[d]=0;
 }
 
+static bool AreaPathUsed(char *path)
+{
+   struct Area *area;
+
+   for(area=(struct Area *)config.AreaList.First;area;area=area->Next)
+      if(stricmp(area->Path,path)==0) return(TRUE);
+
+   return(FALSE);
+}
+
 struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32_t active,uint32_t forcepassthru)
 {
    struct Area *temparea,*defarea;
@@ -201,7 +211,7 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
    if(defarea)
    {
       struct TossNode *tnode;
-      uint32_t c;
+      uint32_t c,len;
       char *forbiddenchars="\"#'`()*,./:;<>|";
       char buf[100],buf2[100];
 
@@ -215,6 +225,16 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
          MakeDirectory checks for duplicate area names in the AreaList
          and would get confused */
       MakeDirectory(buf2,80,defarea->Path,buf);
+
+      /* Different area names can give the same path. Two areas cannot share a
+         messagebase, so add a number if the path is already used */
+
+      len=strlen(buf2);
+      if(len > 79-6) len=79-6;
+
+      for(c=1;buf2[0] && c<100000 && AreaPathUsed(buf2);c++)
+         sprintf(&buf2[len],"_%u",c);
+
       strcpy(temparea->Path,buf2);
 
       if(!forcepassthru)
-- 
2.43.0


From ea4eace720889d8a4359585a1e91193ccdb3db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:40 +0000
Subject: [PATCH 006/101] fix: CRC of 8-bit MSGIDs in the dupe database

A signed char made the table index negative for characters above 127, so the
CRC came from whatever lies before the table and duplicates were missed.
---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index caf4630..3969dd3 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -45,7 +45,7 @@ uint32_t calcstringcrc(char *str)
    crc=0xffffffff;
 
    for(c=0;str[c];c++)
-      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ str[c]];
+      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)(crc ^ (unsigned char)str[c])];
 
    return(crc);
 }
-- 
2.43.0


From f64ecf4e09b4bfc294426f5202158c9a6ec70211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:33 +0000
Subject: [PATCH 007/101] fix: recognise duplicates when the area name differs
 in case

Area names are not case-sensitive, but the dupe database compared them as if
they were.
---
 src/crashmail/dupe.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 3969dd3..1a5e3cb 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -260,14 +260,22 @@ void AddDupeBuf(char *buf,uint16_t size)
    dupechanged=TRUE;
 }
 
+/* Entry: CRC32 (4 bytes), MSGID and area name. Area names are not case-sensitive */
 int dupecomp(char *d1,char *d2,uint32_t len)
 {
    uint32_t c;
 
-   for(c=0;c<len;c++)
+   for(c=0;c<4;c++)
       if(d1[c]!=d2[c]) return(1);
 
-   return(0);
+   d1[len-1]=0;
+
+   if(strcmp(&d1[4],&d2[4])!=0)
+      return(1);
+
+   c=4+strlen(&d2[4])+1;
+
+   return stricmp(&d1[c],&d2[c]);
 }
 
 bool CheckDupe(struct MemMessage *mm)
-- 
2.43.0


From e266e6b1c0a1976e08658b81d66fd7766cbb248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:33 +0000
Subject: [PATCH 008/101] fix: keep all entries of a dupe database with more
 than 65535 entries

The entry number was truncated to 16 bits when the database was rewritten.
---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 1a5e3cb..10e643e 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -76,7 +76,7 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint16_t c,osFile oldfh,osFile newfh)
+void copydupe(uint32_t c,osFile oldfh,osFile newfh)
 {
    char buf[300];
    uint16_t size;
-- 
2.43.0


From f12352b57f18b725b3b7cba9b1269ec431fcf3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:21 +0000
Subject: [PATCH 009/101] fix: keep inbound packets that cannot be opened

---
 src/crashmail/pkt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 830e2ff..12be9c0 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -127,6 +127,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       mmFree(mm);
+      BadFile(pkt,"Unable to open file");
       return(TRUE);
    }
 
-- 
2.43.0


From 8d9e35d2259cb568099d9f4664fca4125e171bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:52 +0000
Subject: [PATCH 010/101] fix: do not match archive types against uninitialized
 memory

---
 src/crashmail/toss.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 7eafcbc..bd603cc 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -42,6 +42,7 @@ struct Packer *DetectPacker(char *file)
       return(NULL);
    }
 
+   memset(buf,0,sizeof(buf)); /* File may be shorter than the buffer */
    osRead(fh,buf,40);
    osClose(fh);
 
-- 
2.43.0


From 54e3158cf2600426931fecca6d5a7c01d5f0ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:56 +0000
Subject: [PATCH 011/101] fix: netmail without INTL takes its destination zone
 from the packet's destination

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 12be9c0..cb28f80 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -338,7 +338,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mm->DestNode.Node = getuword(PktMsgHeader,PKTMSGHEADER_DESTNODE);
 
       mm->DestNode.Zone=PktDest.Zone;
-      mm->DestNode.Zone=PktOrig.Zone;
+      mm->OrigNode.Zone=PktOrig.Zone;
 
       mm->Attr=getuword(PktMsgHeader,PKTMSGHEADER_ATTR);
       mm->Cost=getuword(PktMsgHeader,PKTMSGHEADER_COST);
-- 
2.43.0


From 0eb528f9f18583a3b690b75e9fcffcf0e76d00e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:34 +0000
Subject: [PATCH 012/101] fix: mark receipts, not the mail they answer, as
 created by CrashMail

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 2e4444b..98974db 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1058,7 +1058,7 @@ bool AnswerReceipt(struct MemMessage *mm)
 
    MakeFidoDate(time(NULL),tmpmm->DateTime);
 
-   mm->Flags |= MMFLAG_AUTOGEN;
+   tmpmm->Flags |= MMFLAG_AUTOGEN;
 
    MakeNetmailKludges(tmpmm);
 
-- 
2.43.0


From 7419272442e82e80aece053bd26906f5d75b2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:10 +0000
Subject: [PATCH 013/101] fix: default zones of exported netmail that ends
 inside a kludge line

---
 src/crashmail/mb_msg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 25e99cf..b3505de 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -288,6 +288,13 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    osClose(fh);
 
+   if(mm->Area[0]==0 && (mm->DestNode.Zone == 0 || mm->OrigNode.Zone == 0))
+   {
+      /* Only kludges, and the last one not ended */
+      mm->DestNode.Zone=area->Aka->Node.Zone;
+      mm->OrigNode.Zone=area->Aka->Node.Zone;
+   }
+
    mm->msgnum=num;
 
    if(isrescanning) mm->Flags |= MMFLAG_RESCANNED;
-- 
2.43.0


From 40e7d6d0cca795f008719af1cb8cc9848e663aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:54 +0000
Subject: [PATCH 014/101] fix: index the JAM CRC table with unsigned values

---
 src/jamlib/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jamlib/crc32.c b/src/jamlib/crc32.c
index 42b37de..be75dee 100644
--- a/src/jamlib/crc32.c
+++ b/src/jamlib/crc32.c
@@ -72,7 +72,7 @@ uint32_t JAM_Crc32(char *Buffer_PC, uint32_t Length_I)
    Crc_I=0xffffffff;
 
    for(c=0;c < Length_I; c++)
-      Crc_I=(Crc_I>>8) ^ crc32tab[(char)Crc_I ^ tolower(Buffer_PC[c])];
+      Crc_I=(Crc_I>>8) ^ crc32tab[(uint8_t)(Crc_I ^ tolower((uint8_t)Buffer_PC[c]))];
 
    return(Crc_I);
 }
-- 
2.43.0


From d6b3ff0b7f08b39824088a128476e0ac80a54d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:32 +0000
Subject: [PATCH 015/101] fix: no NUL byte in the text of messages from and to
 JAM areas

---
 src/crashmail/mb_jam.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2110ea0..1012fc5 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -597,7 +597,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    if(msgsize == 0)
    {
       msgtext="";
-      msgpos=1;
+      msgpos=0;
    }
 
    res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);
@@ -956,7 +956,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
          }
       }
 
-      if(!(mmAddBuf(&mm->TextChunks,msgtext,Header_S.TxtLen)))
+      if(!(mmAddBuf(&mm->TextChunks,msgtext,(uint32_t)strlen(msgtext))))
       {
          JAM_DelSubPacket(SubPacket_PS);
          osFree(msgtext);
-- 
2.43.0


From 5c32f9768728c35b40ed5ea42f5f59053934e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:55 +0000
Subject: [PATCH 016/101] fix: export the FLAGS line of JAM messages

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 1012fc5..b11fd69 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -871,7 +871,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(flagsbuf[0])
    {
       strcat(flagsbuf,"\x0d");
-      mmAddLine(mm,buf);
+      mmAddLine(mm,flagsbuf);
    }
 
    oldattr = mm->Attr;
-- 
2.43.0


From 255808fd3d3d8c8ff42d822c65c659a4672970a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:55 +0000
Subject: [PATCH 017/101] fix: do not strip 8-bit characters from the end of
 lines

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 5a1d0ce..dab40f2 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -256,7 +256,7 @@ void striptrail(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--)
 		str[c]=0;
 }
 
-- 
2.43.0


From 381219a4934a286e292bf8778b87a013b22f9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:03 +0000
Subject: [PATCH 018/101] fix: never link messages without MSGID or REPLY in
 JAM areas

---
 src/crashmail/mb_jam.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index b11fd69..1b9e443 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1103,14 +1103,14 @@ bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
 struct Msg
 {
-   unsigned long MsgIdCRC;
-   unsigned long ReplyCRC;
-   unsigned long ReplyTo;
-   unsigned long Reply1st;
-   unsigned long ReplyNext;
-   unsigned long OldReplyTo;
-   unsigned long OldReply1st;
-   unsigned long OldReplyNext;
+   uint32_t MsgIdCRC;
+   uint32_t ReplyCRC;
+   uint32_t ReplyTo;
+   uint32_t Reply1st;
+   uint32_t ReplyNext;
+   uint32_t OldReplyTo;
+   uint32_t OldReply1st;
+   uint32_t OldReplyNext;
 };
 
 int jam_CompareMsgIdReply(s_JamBase *Base_PS,struct Msg *msgs,uint32_t msgidmsg,uint32_t replymsg)
-- 
2.43.0


From 1ace5409902875d440780bcd131a4f043020dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:56 +0000
Subject: [PATCH 019/101] fix: store long control lines of messages in JAM
 areas whole

---
 src/crashmail/mb_jam.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 1b9e443..b1c936d 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -256,6 +256,24 @@ void jam_addfield(s_JamSubPacket *SubPacket_PS,uint32_t fieldnum,char *fielddata
       jam_nomem=TRUE;
 }
 
+/* Adds a line of the message text, of any length and without CR, as a field */
+void jam_addline(s_JamSubPacket *SubPacket_PS,uint32_t fieldnum,char *text,uint32_t len)
+{
+   char *buf;
+
+   if(!(buf=osAlloc(len+1)))
+   {
+      jam_nomem=TRUE;
+      return;
+   }
+
+   mystrncpy(buf,text,len+1);
+   stripleadtrail(buf);
+   jam_addfield(SubPacket_PS,fieldnum,buf);
+
+   osFree(buf);
+}
+
 struct flag
 {
    char *name;
@@ -465,23 +483,17 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
          {
             if(linelen>=5 && strncmp(&msgtext[linebegin],"\x01""PID:",5)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-5));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_PID,buf);
+               jam_addline(SubPacket_PS,JAMSFLD_PID,&msgtext[linebegin+5],linelen-5);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""MSGID:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
+               jam_addline(SubPacket_PS,JAMSFLD_MSGID,&msgtext[linebegin+7],linelen-7);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
+               jam_addline(SubPacket_PS,JAMSFLD_REPLYID,&msgtext[linebegin+7],linelen-7);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
@@ -531,9 +543,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
             }
             else if(msgtext[linebegin]==1)
             {
-               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen-1));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,buf);
+               jam_addline(SubPacket_PS,JAMSFLD_FTSKLUDGE,&msgtext[linebegin+1],linelen-1);
 					msgpos=linebegin;
             }
          }
-- 
2.43.0


From f430d0daec5c26f5bc0252caedbbc349e9cb7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:51 +0000
Subject: [PATCH 020/101] fix: end the last line of rescanned messages before
 control lines are added

---
 src/crashmail/handle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 98974db..6c951d1 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1746,6 +1746,9 @@ bool HandleRescan(struct MemMessage *mm)
    for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
       if(stricmp(temparea->Tagname,mm->Area)==0) break;
 
+   if(!EndLastLine(mm))
+      return(FALSE);
+
    /* Add own node to seen-by to be on the safe side */
 
    if(temparea->Aka->Node.Point == 0)
-- 
2.43.0


From a986bc2e6217a7a4a7400a63729b48bcf1c13877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:26 +0000
Subject: [PATCH 021/101] fix: add control lines to exported MSG messages with
 long or unended kludges

---
 src/crashmail/mb_msg.c | 84 ++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 36 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index b3505de..e6b953f 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -165,10 +165,48 @@ bool msg_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm))
    return(TRUE);
 }
 
+/* Adds the control lines of exported messages, after those that the message already has */
+void msg_AddKludges(struct MemMessage *mm,struct Area *area,struct StoredMsg *Msg,bool isrescanning)
+{
+   char buf2[50];
+
+   if((config.cfg_Flags & CFG_ADDTID) && !isrescanning)
+      AddTID(mm);
+
+   if(isrescanning)
+   {
+      sprintf(buf2,"\x01RESCANNED %u:%u/%u.%u\x0d",area->Aka->Node.Zone,
+                                                   area->Aka->Node.Net,
+                                                   area->Aka->Node.Node,
+                                                   area->Aka->Node.Point);
+      mmAddLine(mm,buf2);
+   }
+
+   if(mm->Area[0]==0)
+   {
+      if(mm->DestNode.Zone == 0 || mm->OrigNode.Zone == 0)
+      {
+         /* No INTL line and no zone in header */
+         mm->DestNode.Zone=area->Aka->Node.Zone;
+         mm->OrigNode.Zone=area->Aka->Node.Zone;
+         Msg->DestZone=area->Aka->Node.Zone;
+         Msg->OrigZone=area->Aka->Node.Zone;
+
+         if(config.cfg_Flags & CFG_FORCEINTL)
+         {
+            sprintf(buf2,"\x01INTL %u:%u/%u %u:%u/%u\x0d",Msg->DestZone,Msg->DestNet,Msg->DestNode,
+                                                          Msg->OrigZone,Msg->OrigNet,Msg->OrigNode);
+
+            mmAddLine(mm,buf2);
+         }
+      }
+   }
+}
+
 bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning)
 {
    char buf[200],buf2[50];
-   bool kludgeadd;
+   bool kludgeadd,linestart;
    osFile fh;
    struct StoredMsg Msg;
    struct MemMessage *mm;
@@ -230,6 +268,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    mm->Cost = Msg.Cost;
 
    kludgeadd=FALSE;
+   linestart=TRUE;
    msg_messageend=FALSE;
    msg_shortread=FALSE;
 
@@ -237,41 +276,11 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       msg_ReadCR(buf,200,fh);
 
-      if(buf[0]!=1 && buf[0]!=10 && !kludgeadd)
+      if(linestart && buf[0]!=1 && buf[0]!=10 && !kludgeadd)
       {
          kludgeadd=TRUE;
 
-         if((config.cfg_Flags & CFG_ADDTID) && !isrescanning)
-            AddTID(mm);
-
-         if(isrescanning)
-         {
-            sprintf(buf2,"\x01RESCANNED %u:%u/%u.%u\x0d",area->Aka->Node.Zone,
-                                                         area->Aka->Node.Net,
-                                                         area->Aka->Node.Node,
-                                                         area->Aka->Node.Point);
-            mmAddLine(mm,buf2);
-         }
-
-         if(mm->Area[0]==0)
-         {
-            if(mm->DestNode.Zone == 0 || mm->OrigNode.Zone == 0)
-            {
-               /* No INTL line and no zone in header */
-               mm->DestNode.Zone=area->Aka->Node.Zone;
-               mm->OrigNode.Zone=area->Aka->Node.Zone;
-               Msg.DestZone=area->Aka->Node.Zone;
-               Msg.OrigZone=area->Aka->Node.Zone;
-
-               if(config.cfg_Flags & CFG_FORCEINTL)
-               {
-                  sprintf(buf2,"\x01INTL %u:%u/%u %u:%u/%u\x0d",Msg.DestZone,Msg.DestNet,Msg.DestNode,
-                                                                Msg.OrigZone,Msg.OrigNet,Msg.OrigNode);
-
-                  mmAddLine(mm,buf2);
-               }
-            }
-         }
+         msg_AddKludges(mm,area,&Msg,isrescanning);
       }
 
       if(buf[0])
@@ -282,17 +291,20 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             mmFree(mm);
             return(FALSE);
          }
+
+         linestart=(buf[strlen(buf)-1]==13 || buf[strlen(buf)-1]==10);
       }
 
    } while(!msg_messageend && !msg_shortread);
 
    osClose(fh);
 
-   if(mm->Area[0]==0 && (mm->DestNode.Zone == 0 || mm->OrigNode.Zone == 0))
+   if(!kludgeadd)
    {
       /* Only kludges, and the last one not ended */
-      mm->DestNode.Zone=area->Aka->Node.Zone;
-      mm->OrigNode.Zone=area->Aka->Node.Zone;
+
+      if(!linestart) mmAddLine(mm,"\x0d");
+      msg_AddKludges(mm,area,&Msg,isrescanning);
    }
 
    mm->msgnum=num;
-- 
2.43.0


From a62d364d507443caf7ccfed9b26eee1c46c4dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:26 +0000
Subject: [PATCH 022/101] fix: long lines in AreaFix messages overflowed a
 buffer and were split into several commands

---
 src/crashmail/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3b55e3a..1089dfd 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -120,10 +120,10 @@ bool AreaFix(struct MemMessage *mm)
    {
       for(c=0;c<chunk->Length && !stop && !ctrlc;c++)
       {
-         for(d=0;d<100 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
-            buf[d]=chunk->Data[c+d];
+         for(d=0;c+d<chunk->Length && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10;d++)
+            if(d<99) buf[d]=chunk->Data[c+d];
 
-         buf[d]=0;
+         buf[d<99 ? d : 99]=0;
          c+=d;
 
          if(strncmp(buf,"---",3)==0)
-- 
2.43.0


From b1a1eae56561912d07542e1e2403b26c1ee71032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:27 +0000
Subject: [PATCH 023/101] fix: the line that ends an AreaFix message was itself
 taken as a command

---
 src/crashmail/areafix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 1089dfd..4140a6a 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -127,7 +127,10 @@ bool AreaFix(struct MemMessage *mm)
          c+=d;
 
          if(strncmp(buf,"---",3)==0)
+         {
             stop=TRUE;
+            buf[0]=0;
+         }
 
 			stripleadtrail(buf);
 
-- 
2.43.0


From 87f4faf15d1cfa94f283b1ffc4fb989d13ed87f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:27 +0000
Subject: [PATCH 024/101] fix: AreaFix copied overlapping strings when it
 removed the command character

---
 src/crashmail/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 4140a6a..e564300 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -329,19 +329,19 @@ bool AreaFix(struct MemMessage *mm)
             if(areaname[0]=='-')
             {
                command=COMMAND_REMOVE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else if(areaname[0]=='=')
             {
                command=COMMAND_UPDATE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else
             {
                command=COMMAND_ADD;
 
                if(areaname[0]=='+')
-                  strcpy(areaname,&areaname[1]);
+                  memmove(areaname,&areaname[1],strlen(areaname));
             }
 
             if(!osCheckPattern(areaname))
-- 
2.43.0


From f3c63315605711a88a3cb6c790aef6c72a7288df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:52 +0000
Subject: [PATCH 025/101] fix: forward-requested areas ignored DEFREADONLY for
 the requesting node

---
 src/crashmail/areafix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index e564300..44c66f2 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -631,15 +631,15 @@ bool AreaFix(struct MemMessage *mm)
                                     RemoteAreafixAdd(areaname,arealist->Node);
 
                                     area=AddArea(areaname,&arealist->Node->Node,&tmproute->Aka->Node,TRUE,config.cfg_Flags & CFG_FORWARDPASSTHRU);
-                                    area->Group=arealist->Group;
 
                                     if(area)
                                     {
                                        uint16_t flags;
 
+                                       area->Group=arealist->Group;
                                        flags=0;
 
-                                       if(CheckFlags(area->Group,cnode->ReadOnlyGroups))
+                                       if((area->Flags & AREA_DEFREADONLY) || CheckFlags(area->Group,cnode->ReadOnlyGroups))
                                           flags|=TOSSNODE_READONLY;
 
                                        AddTossNode(area,cnode,flags);
-- 
2.43.0


From 141891b8e16c154117da961a9f7447d778804ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:52 +0000
Subject: [PATCH 026/101] fix: forward-request could add a second area with the
 name of a netmail, local, bad or default area

---
 src/crashmail/areafix.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 44c66f2..c15b034 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -616,7 +616,13 @@ bool AreaFix(struct MemMessage *mm)
                         {
                            if(!areaexists)
                            {
-                              if(cnode->Flags & NODE_FORWARDREQ)
+                              /* Areas that exist but are not available through AreaFix
+                                 and areas with too long names cannot be requested */
+
+                              for(area=(struct Area *)config.AreaList.First;area;area=area->Next)
+                                 if(stricmp(areaname,area->Tagname)==0) break;
+
+                              if(!area && strlen(areaname)<80 && (cnode->Flags & NODE_FORWARDREQ))
                               {
                                  arealist=FindForward(areaname,cnode->Groups);
 
-- 
2.43.0


From cffec753cdf0aa318f19f39f0f075284e1960c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:53 +0000
Subject: [PATCH 027/101] fix: last character of long lines in the AreaFix help
 file was lost

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index c15b034..b55258c 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1329,7 +1329,7 @@ void rawSendHelp(struct Node4D *from4d,char *toname,struct ConfigNode *cnode)
    {
       while(osFGets(fh,helpbuf,100) && !nomem)
       {
-         if(helpbuf[0]!=0)
+         if(helpbuf[0]!=0 && helpbuf[strlen(helpbuf)-1]=='\n')
             helpbuf[strlen(helpbuf)-1]=0;
 
          afAddLine(afr,"%s",helpbuf);
-- 
2.43.0


From 6926027e4dcd74f92fed0605aa7d85f0b8466f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:57 +0000
Subject: [PATCH 028/101] fix: area names longer than 69 characters were cut
 off in commands to remote AreaFixes

---
 src/crashmail/areafix.c | 8 +++-----
 src/crashmail/config.h  | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index b55258c..b1d41ba 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1532,12 +1532,11 @@ void RemoteAreafixAdd(char *area,struct ConfigNode *node)
    }
 
 	if(node->Flags & NODE_AFNEEDSPLUS)
-	   sprintf(cmd->Command,"+%.78s",area);
+	   sprintf(cmd->Command,"+%.79s",area);
 
 	else
-	   sprintf(cmd->Command,"%.78s",area);
+	   sprintf(cmd->Command,"%.79s",area);
 
-   cmd->Command[70]=0;
    jbAddNode(&node->RemoteAFList,(struct jbNode *)cmd);
 }
 
@@ -1551,9 +1550,8 @@ void RemoteAreafixRemove(char *area,struct ConfigNode *node)
       return;
    }
 
-   sprintf(cmd->Command,"-%.78s",area);
+   sprintf(cmd->Command,"-%.79s",area);
 
-   cmd->Command[70]=0;
    jbAddNode(&node->RemoteAFList,(struct jbNode *)cmd);
 }
 
diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 762d2bb..2726226 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -149,7 +149,7 @@ struct BannedNode
 struct RemoteAFCommand
 {
    struct RemoteAFCommand *Next;
-   char Command[80];
+   char Command[82];
 };
 
 struct ConfigNode
-- 
2.43.0


From 392c982fd1bc4f40572690aa24fe63f16dceef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:58 +0000
Subject: [PATCH 029/101] fix: buffer overflow when notifying nodes that an
 area with a long name has been removed

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index b1d41ba..a171890 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -741,7 +741,7 @@ bool AreaFix(struct MemMessage *mm)
 void SendRemoveMessages(struct Area *area)
 {
    struct TossNode *tn;
-   char buf[100];
+   char buf[200];
    struct MemMessage *mm;
 	
    for(tn=(struct TossNode *)area->TossNodes.First;tn;tn=tn->Next)
-- 
2.43.0


From 3e8002724654cc95917203b83b1e8263dcf34b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:58 +0000
Subject: [PATCH 030/101] fix: buffer overflow when a node has more than 29
 groups

---
 src/crashmail/config.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 949e251..3b9349e 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -341,7 +341,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(jbstrcpy(LastCNode->Groups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->Groups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->Groups))
             {
@@ -351,7 +351,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             }
          }
 
-         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->ReadOnlyGroups))
             {
@@ -361,7 +361,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             }
          }
 
-         if(jbstrcpy(LastCNode->AddGroups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->AddGroups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->AddGroups))
             {
-- 
2.43.0


From 584ef0786a9e0dc870b0a82ef9ac608eabb4f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:16 +0000
Subject: [PATCH 031/101] fix: areas with names longer than 79 characters were
 dropped when the configuration was updated

---
 src/crashmail/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 3b9349e..2a4859d 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2283,7 +2283,7 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
       {
          skiparea=FALSE;
 
-         if(jbstrcpy(buf,cfgbuf,100,&jbcpos))
+         if(jbstrcpy(buf,cfgbuf,80,&jbcpos))
          {
             for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
                if(stricmp(buf,area->Tagname)==0) break;
-- 
2.43.0


From 5137c8ccb6446b766ff35c8bfa6dcaf9451cb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:26 +0000
Subject: [PATCH 032/101] fix: echomail in the name of a netmail, local, bad or
 default area crashed, was tossed there or made the configuration unreadable

---
 src/crashmail/areafix.c |  2 +-
 src/crashmail/handle.c  | 20 ++++++++++++++++++++
 src/crashmail/handle.h  |  1 +
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index a171890..3f3b832 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -622,7 +622,7 @@ bool AreaFix(struct MemMessage *mm)
                               for(area=(struct Area *)config.AreaList.First;area;area=area->Next)
                                  if(stricmp(areaname,area->Tagname)==0) break;
 
-                              if(!area && strlen(areaname)<80 && (cnode->Flags & NODE_FORWARDREQ))
+                              if(!area && !IsReservedArea(areaname) && strlen(areaname)<80 && (cnode->Flags & NODE_FORWARDREQ))
                               {
                                  arealist=FindForward(areaname,cnode->Groups);
 
diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 6c951d1..b07882d 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -154,6 +154,11 @@ static bool AreaPathUsed(char *path)
    return(FALSE);
 }
 
+bool IsReservedArea(char *name)
+{
+   return(stricmp(name,"BAD")==0 || stricmp(name,"DEFAULT")==0 || strnicmp(name,"DEFAULT_",8)==0);
+}
+
 struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32_t active,uint32_t forcepassthru)
 {
    struct Area *temparea,*defarea;
@@ -583,6 +588,21 @@ bool HandleEchomail(struct MemMessage *mm)
    for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
       if(stricmp(temparea->Tagname,mm->Area)==0) break;
 
+   /* Echomail can only be tossed to echomail areas. The reserved names cannot
+      be used for auto-added areas since they have a special meaning */
+
+   if(temparea ? temparea->AreaType != AREATYPE_ECHOMAIL : IsReservedArea(mm->Area))
+   {
+      LogWrite(1,TOSSINGERR,"%s is not an echomail area",mm->Area);
+
+      toss_bad++;
+
+      if(!WriteBad(mm,"Not an echomail area"))
+         return(FALSE);
+
+      return(TRUE);
+   }
+
    /* Auto-add */
 
    if(!temparea)
diff --git a/src/crashmail/handle.h b/src/crashmail/handle.h
index 3beedc6..4422fc6 100644
--- a/src/crashmail/handle.h
+++ b/src/crashmail/handle.h
@@ -1,6 +1,7 @@
 bool HandleMessage(struct MemMessage *mm);
 bool HandleRescan(struct MemMessage *mm);
 struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32_t active,uint32_t forcepassthru);
+bool IsReservedArea(char *name);
 bool AddNodePath(struct jbList *list,struct Node4D *node);
 bool AddTossNode(struct Area *area,struct ConfigNode *cnode,uint16_t flags);
 bool WriteBad(struct MemMessage *mm,char *reason);
-- 
2.43.0


From 2c613d8bea49b5332ff638734c5e7a6ab49900cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 033/101] fix: substring searches in filters missed matches and
 read outside a table for 8-bit characters

---
 src/crashmail/filter.c | 13 +++++--------
 src/shared/expr.h      |  2 ++
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 91b49cb..54fc9f4 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -11,13 +11,10 @@ void bminit(char *pat)
    len=strlen(pat);
 
    for(i=0;i<256;i++)
-      bmstep[i]=0;
+      bmstep[i]=len;
 
-   for(i=0;i<len;i++)
-      bmstep[tolower(pat[i])]=len-i-1;
-
-   for(i=0;i<256;i++)
-      if(bmstep[i] == 0) bmstep[i]=len;
+   for(i=0;i<len-1;i++)
+      bmstep[tolower((unsigned char)pat[i])]=len-i-1;
 }
 
 long bmfind(char *pat,char *text,long textlen,long start)
@@ -32,12 +29,12 @@ long bmfind(char *pat,char *text,long textlen,long start)
    while(i<=end)
    {
       for(j=len-1;j>=0;j--)
-         if(tolower(text[i+j])!=tolower(pat[j])) break;
+         if(tolower((unsigned char)text[i+j])!=tolower((unsigned char)pat[j])) break;
 
       if(j == -1)
          return(i);
 
-      i+=bmstep[tolower(text[i+j])];
+      i+=bmstep[tolower((unsigned char)text[i+len-1])];
    }
 
    return(-1);
diff --git a/src/shared/expr.h b/src/shared/expr.h
index 03a2de7..183e771 100644
--- a/src/shared/expr.h
+++ b/src/shared/expr.h
@@ -3,6 +3,8 @@ struct expr
    char *buf;
    int parsepos;
    int offset;
+   bool negate; /* Preceded by NOT */
+   bool group;  /* Was enclosed in parentheses */
 };
 
 int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr);
-- 
2.43.0


From 79f5e89dcb8d37f1876fdfb33c6de323371a94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 034/101] fix: =TRUE/=FALSE was ignored for the EXISTSNL
 variables in filters

---
 src/crashmail/filter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 54fc9f4..329377c 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -409,7 +409,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_FROMADDR",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_FROMBOSS")==0)
@@ -425,7 +425,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_FROMBOSS",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_TOADDR")==0)
@@ -441,7 +441,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_TOADDR",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_TOBOSS")==0)
@@ -457,7 +457,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_TOBOSS",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSCFG_FROMBOSS")==0)
-- 
2.43.0


From 2b3ad0f87b22111c608cb5b0b13c3e07645345c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 035/101] fix: syntax errors in long filters were accepted and
 unknown variable names overflowed a buffer

---
 src/crashmail/filter.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 329377c..71c0a92 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -55,7 +55,7 @@ int filter_nllookup(struct Node4D *node)
 
 int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
    struct Node4DPat pat;
 
    if(operator[0]==0)
@@ -98,7 +98,7 @@ int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,i
 
 int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
 
    if(operator[0]==0)
    {
@@ -143,7 +143,7 @@ int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,i
 
 int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
 
    if(operator[0]==0)
    {
@@ -187,7 +187,7 @@ int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int d
 
 int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
    struct TextChunk *chunk;
    long start,pos,c;
 
@@ -232,7 +232,7 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
 int filter_evalfunc(char *str,int *errpos,char **errstr)
 {
    char type[20],source[20];
-   static char errbuf[100];
+   static char errbuf[200];
    struct Aka *aka;
    struct ConfigNode *cnode;
    bool fileattach,tolocalaka,fromlocalaka,tolocalpoint,fromlocalpoint;
@@ -1112,9 +1112,9 @@ bool CheckFilter(char *filter,char *cfgerr)
    	   strcat(cfgerr,"\n");
          strcat(cfgerr," ");
          strcat(cfgerr,errstr);
-
-	      return(FALSE);
 		}
+
+      return(FALSE);
    }
 
    return(TRUE);
-- 
2.43.0


From fe8c697d25f92133b982c57238e421c586a34c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 036/101] fix: the second kludge added by REMAPMSG was not
 terminated and long names overflowed a buffer

---
 src/crashmail/filter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 71c0a92..dba5d29 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -737,7 +737,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    ExpandNodePat(destpat,&mm->DestNode,&newdest4d);
 
    if(strcmp(namepat,"*")==0) strcpy(newto,mm->To);
-   else                       strcpy(newto,namepat);
+   else                       mystrncpy(newto,namepat,36);
 
    my4d.Zone=0;
    my4d.Net=0;
@@ -812,7 +812,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
 
 	mmAddLine(mm,buf);
 
-   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%ud",
+   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%u\x0d",
       oldto,
       olddest4d.Zone,
       olddest4d.Net,
-- 
2.43.0


From 1c1383cfe79b97894d1947699f6ebda239525ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 037/101] fix: failing COPY in a filter was ignored and lost
 the text of the message

---
 src/crashmail/filter.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index dba5d29..2f4bbba 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -537,6 +537,7 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    struct TextChunk *tmp;
    struct jbList oldlist;
    char buf[200];
+   bool res;
 
    LogWrite(4,TOSSINGINFO,"Filter: Copying message to area %s",tagname);
 
@@ -560,17 +561,17 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    for(tmp=(struct TextChunk *)oldlist.First;tmp;tmp=tmp->Next)
       mmAddBuf(&mm->TextChunks,tmp->Data,tmp->Length);
 
-   if(!((*area->Messagebase->importfunc)(mm,area)))
-      return(FALSE);
+   res=(*area->Messagebase->importfunc)(mm,area);
 
-   area->NewTexts++;
+   if(res)
+      area->NewTexts++;
 
    jbFreeList(&mm->TextChunks);
 
    mm->TextChunks.First=oldlist.First;
    mm->TextChunks.Last=oldlist.Last;
 
-   return(TRUE);
+   return(res);
 }
 
 bool Filter_WriteBad(struct MemMessage *mm,char *reason)
@@ -1015,7 +1016,9 @@ bool Filter(struct MemMessage *mm)
 						break;
 
 					case COMMAND_COPY:
-						Filter_Copy(mm,command->string);
+                  if(!Filter_Copy(mm,command->string))
+							return(FALSE);
+
 						break;
 
                case COMMAND_EXECUTE:
-- 
2.43.0


From 89560e30ac023e506cb747959aea21522defbe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 038/101] fix: MASQUERADE truncated kludges and read outside
 the message text

---
 src/crashmail/filter.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 2f4bbba..142bc67 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -782,7 +782,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-         if(tmp->Data[d]==13) d++;
+         if(d<tmp->Length) d++;
 
 			skip=FALSE;
 
@@ -845,7 +845,7 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	ExpandNodePat(destpat,&mm->OrigNode,&neworig4d);
 
     if(strcmp(namepat,"*")==0) strcpy(newfrom,mm->From);
-    else                       strcpy(newfrom,namepat);
+    else                       mystrncpy(newfrom,namepat,36);
 	strcpy (mm->From, newfrom);
 
 	LogWrite(4,SYSTEMINFO, "Filter: Masquerade message as %s at %u:%u/%u.%u",
@@ -861,11 +861,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	char * separator = strchr (mm->MSGID, ' ');
 	if (separator)
 	{
-		char str[80];
-		strncpy (str, separator + 1, 80);
+		char str[100];
+		mystrncpy (str, separator + 1, 80);
 		snprintf (mm->MSGID, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 		// update kludge
-		snprintf(str, 80, "\x01MSGID: %s\x0d",mm->MSGID);
+		snprintf(str, 100, "\x01MSGID: %s\x0d",mm->MSGID);
      	mmAddBuf(&mm->TextChunks, str, strlen(str));
 	}	
 
@@ -875,11 +875,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		separator = strchr (mm->REPLY, ' ');
 		if (separator)
 		{
-			char str[80];
-			strncpy (str, separator + 1, 80);
+			char str[100];
+			mystrncpy (str, separator + 1, 80);
 			snprintf (mm->REPLY, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 			// update kludge
-			snprintf(str, 80, "\x01REPLY: %s\x0d",mm->REPLY);
+			snprintf(str, 100, "\x01REPLY: %s\x0d",mm->REPLY);
 		 	mmAddBuf(&mm->TextChunks, str, strlen(str));
 		}	
 	}
@@ -897,11 +897,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		while(c<tmp->Length)
 	  	{
 			for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-		 	if(tmp->Data[d]==13) d++;
+		 	if(d<tmp->Length) d++;
 
 			skip=FALSE;
 
-			if ((tmp->Data[c+1] == '*') && (d-c > 9)) // Origin
+			if ((d-c > 9) && (tmp->Data[c+1] == '*')) // Origin
 			{
 				char * s = &tmp->Data[c]; size_t len = d-c;
 				if(strncmp(s," * Origin", 9)==0)
@@ -911,7 +911,7 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 					if (leftBracket)
 					{
 						char * rightBracket;
-						rightBracket = (char *)memchr (leftBracket + 1, ')', len-(leftBracket-s));
+						rightBracket = (char *)memchr (leftBracket + 1, ')', len-(leftBracket-s)-1);
 						if (rightBracket)
 						{	
 							mmAddBuf(&mm->TextChunks, s, leftBracket-s+1); // before address
-- 
2.43.0


From 2937151fc65439cf6908d6361d6ce219ad70c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 039/101] fix: long expanded strings in filter and packer
 commands overflowed a buffer

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index dab40f2..991778d 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -46,7 +46,7 @@ void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
    uint32_t c,d;
 
    d=0;
-   for(c=0;c<strlen(cmd);c++)
+   for(c=0;c<strlen(cmd) && d<destsize-1;c++)
    {
       if(cmd[c]=='%' && (cmd[c+1])=='a')
       {
-- 
2.43.0


From 3528f498496beba489fc92763e74e43aa2e7230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 040/101] fix: kludges lost their last character or read
 outside the text when written as RFC message

---
 src/crashmail/misc.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 991778d..1329d2f 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -748,19 +748,21 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13 && tmp->Data[d]!=10;d++);
-         if(tmp->Data[d]==13 || tmp->Data[d]==10) d++;
 
-         if(tmp->Data[c]==1 && d-c-2!=0)
+         if(tmp->Data[c]==1 && d-c-1!=0)
          {
 				if(!osPuts(fh,"X-Fido-"))
 					{ ioerror=TRUE; ioerrornum=osError(); }
 
-				if(!osWrite(fh,&tmp->Data[c+1],d-c-2))
+				if(!osWrite(fh,&tmp->Data[c+1],d-c-1))
 					{ ioerror=TRUE; ioerrornum=osError(); }
 
             if(!osPuts(fh,"\n"))
 					{ ioerror=TRUE; ioerrornum=osError(); }
          }
+
+         if(d<tmp->Length) d++;
+
          c=d;
       }
    }
@@ -781,7 +783,7 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
          lastspace=0;
          c=0;
 
-         while(tmp->Data[d+c]==10) d++;
+         while(d<tmp->Length && tmp->Data[d]==10) d++;
 
          while(c<78 && d+c<tmp->Length && tmp->Data[d+c]!=13)
          {
@@ -799,7 +801,7 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
          {
             strncpy(buffer,&tmp->Data[d],c);
             buffer[c]=0;
-            if(tmp->Data[d+c]==13) c++;
+            if(d+c<tmp->Length && tmp->Data[d+c]==13) c++;
             d+=c;
          }
 
-- 
2.43.0


From f09b2922bf9a14e4b88e416e48d420cd70e02219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 041/101] fix: reason of bounced message was not terminated
 when longer than 389 characters

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index b07882d..8c87d77 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -957,7 +957,7 @@ bool Bounce(struct MemMessage *mm,char *reason,bool headeronly)
    if(config.cfg_Flags & CFG_ADDTID)
       AddTID(tmpmm);
 
-   strncpy(buf,reason,390);
+   mystrncpy(buf,reason,390);
    strcat(buf,"\x0d\x0d");
 
    mmAddLine(tmpmm,buf);
-- 
2.43.0


From 1563ef5184c9125d7f65e356ae013155b195b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:30 +0000
Subject: [PATCH 042/101] fix: filter expressions with NOT (...) negated only
 the first term and were not evaluated from left to right

---
 src/shared/expr.c | 278 +++++++++++-----------------------------------
 src/shared/expr.h |   4 +-
 2 files changed, 67 insertions(+), 215 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index d010367..a42e4b8 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -28,6 +28,9 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
    {
       c+=4;
       hasnot=TRUE;
+
+      while(expr->buf[c]==' ')
+         c++;
    }
 
    /* Check if parentheses */
@@ -38,11 +41,14 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
 
       nump=1;
       d=c+1;
+      hasquote=FALSE;
 
       while(nump!=0 && expr->buf[d]!=0)
       {
-         if(expr->buf[d]=='(') nump++;
-         if(expr->buf[d]==')') nump--;
+         if(expr->buf[d]=='"') hasquote=!hasquote;
+
+         if(expr->buf[d]=='(' && !hasquote) nump++;
+         if(expr->buf[d]==')' && !hasquote) nump--;
 
          d++;
       }
@@ -70,9 +76,8 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
          res->parsepos=0;
          res->offset=expr->offset+start;
          res->buf[0]=0;
-
-         if(hasnot)
-            strcat(res->buf,"NOT ");
+         res->negate=hasnot;
+         res->group=TRUE;
 
          strncat(res->buf,&expr->buf[start],len);
 
@@ -135,55 +140,8 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
    res->parsepos=0;
    res->offset=expr->offset+start;
    res->buf[0]=0;
-
-   if(hasnot)
-      strcat(res->buf,"NOT ");
-
-   strncat(res->buf,&expr->buf[start],len);
-
-   expr->parsepos=d;
-
-   return(res);
-}
-
-struct expr *expr_getrest(struct expr *expr,int *errpos,char **errstr)
-{
-   int c,d,start,len;
-   struct expr *res;
-
-   c=expr->parsepos;
-
-   /* Skip leading whitespace */
-
-   while(expr->buf[c]==' ')
-      c++;
-
-   d=c;
-
-   while(expr->buf[d]!=0)
-      d++;
-
-   start=c;
-   len=d-c;
-
-   if(!(res=osAlloc(sizeof(struct expr))))
-   {
-      *errpos=expr->offset;
-      *errstr="Out of memory";
-      return(NULL);
-   }
-
-   if(!(res->buf=osAlloc(len+10)))
-   {
-      osFree(res);
-      *errpos=expr->offset;
-      *errstr="Out of memory";
-      return(NULL);
-   }
-
-   res->parsepos=0;
-   res->offset=expr->offset+start;
-   res->buf[0]=0;
+   res->negate=hasnot;
+   res->group=FALSE;
 
    strncat(res->buf,&expr->buf[start],len);
 
@@ -218,206 +176,100 @@ void expr_free(struct expr *expr)
    osFree(expr);
 }
 
-int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr)
-{
-   struct expr *e1,*e2,*e3;
+/* Evaluate one operand, a parenthesized expression or a single statement */
 
-   e1=expr_get(expr,errpos,errstr);
+static int expr_evaloperand(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr)
+{
+   int res,tmperrpos;
 
-   if(!e1)
+   if(expr->group)
    {
-      return(-1);
+      res=expr_eval(expr,eval,errpos,errstr);
    }
-
-   e2=expr_get(expr,errpos,errstr);
-
-   if(!e2)
+   else
    {
-      expr_free(e1);
-      return(-1);
-   }
+      res=(*eval)(expr->buf,&tmperrpos,errstr);
 
-   e3=expr_getrest(expr,errpos,errstr);
-
-   if(!e3)
-   {
-      expr_free(e1);
-      expr_free(e2);
-      return(-1);
+      if(res == -1)
+         *errpos=expr->offset+tmperrpos;
    }
 
-   if(e2->buf[0] == 0)
+   if(expr->negate)
    {
-      /* Only one expression */
-
-      if(strcmp(e1->buf,expr->buf)==0)
-      {
-         /* No more simplification possible */
-
-         if(strnicmp(e1->buf,"NOT ",4)==0)
-         {
-            int res;
-
-            strcpy(e1->buf,&e1->buf[4]);
-            e1->parsepos=0;
-
-            res=expr_eval(e1,eval,errpos,errstr);
-
-            if(res == 1) res=0;
-            else if(res == 0) res=1;
-
-/* printf("NOT |%s|: %d\n",e1->buf,res); */
-
-            expr_free(e1);
-            expr_free(e2);
-            expr_free(e3);
-
-            return(res);
-         }
-         else
-         {
-            int res,tmperrpos;
-
-            res=(*eval)(e1->buf,&tmperrpos,errstr);
-
-            if(res == -1)
-               *errpos=e1->offset+tmperrpos;
-
-/* printf("EVAL: |%s|: %d\n",e1->buf,res); */
+      if(res == 1)      res=0;
+      else if(res == 0) res=1;
+   }
 
-            expr_free(e1);
-            expr_free(e2);
-            expr_free(e3);
+   return(res);
+}
 
-            return(res);
-         }
-      }
-      else
-      {
-         int res;
+int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr)
+{
+   struct expr *e;
+   int res,r2;
+   bool and;
 
-         res=expr_eval(e1,eval,errpos,errstr);
+   if(!(e=expr_get(expr,errpos,errstr)))
+      return(-1);
 
-/* printf("|%s|: %d\n",e1->buf,res); */
+   res=expr_evaloperand(e,eval,errpos,errstr);
 
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+   expr_free(e);
 
-         return (res);
-      }
-   }
+   /* The rest of the expression is evaluated from left to right */
 
-   if(stricmp(e2->buf,"AND")==0)
+   while(res != -1)
    {
-      int r1,r2,res;
+      if(!(e=expr_get(expr,errpos,errstr)))
+         return(-1);
 
-      if(e3->buf[0] == 0)
+      if(e->buf[0] == 0 && !e->group && !e->negate)
       {
-         *errstr="Expected second expression after AND";
-         *errpos=e3->offset;
-
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-
-         return(-1);
+         expr_free(e);
+         return(res);
       }
 
-      r1=expr_eval(e1,eval,errpos,errstr);
-
-      if(r1 == -1)
+      if(!e->group && !e->negate && stricmp(e->buf,"AND")==0)
       {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-         return(-1);
+         and=TRUE;
       }
-
-      r2=expr_eval(e3,eval,errpos,errstr);
-
-      if(r2 == -1)
+      else if(!e->group && !e->negate && stricmp(e->buf,"OR")==0)
       {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-         return(-1);
+         and=FALSE;
       }
-
-      res=0;
-
-      if(r1 && r2)
-         res=1;
-
-/* printf("|%s| AND |%s|: %d\n",e1->buf,e3->buf,res); */
-
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
-
-      return(res);
-   }
-   else if(stricmp(e2->buf,"OR")==0)
-   {
-      int r1,r2,res;
-
-      if(e3->buf[0] == 0)
+      else
       {
-         *errstr="Expected second expression after OR";
-         *errpos=e3->offset;
-
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+         *errstr="Expected AND or OR";
+         *errpos=e->offset;
 
+         expr_free(e);
          return(-1);
       }
 
-      r1=expr_eval(e1,eval,errpos,errstr);
-
-      if(r1 == -1)
-      {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+      expr_free(e);
 
+      if(!(e=expr_get(expr,errpos,errstr)))
          return(-1);
-      }
-
-      r2=expr_eval(e3,eval,errpos,errstr);
 
-      if(r2 == -1)
+      if(e->buf[0] == 0 && !e->group)
       {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+         *errstr=and ? "Expected second expression after AND" : "Expected second expression after OR";
+         *errpos=e->offset;
 
+         expr_free(e);
          return(-1);
       }
 
-      res=0;
-
-      if(r1 || r2)
-         res=1;
+      r2=expr_evaloperand(e,eval,errpos,errstr);
 
-/* printf("|%s| OR |%s|: %d\n",e1->buf,e3->buf,res); */
+      expr_free(e);
 
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
+      if(r2 == -1)
+         return(-1);
 
-      return(res);
+      if(and) res=(res && r2);
+      else    res=(res || r2);
    }
-   else
-   {
-      *errstr="Expected AND or OR";
-      *errpos=e2->offset;
 
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
-
-      return(-1);
-   }
+   return(res);
 }
-
diff --git a/src/shared/expr.h b/src/shared/expr.h
index 183e771..8316704 100644
--- a/src/shared/expr.h
+++ b/src/shared/expr.h
@@ -3,8 +3,8 @@ struct expr
    char *buf;
    int parsepos;
    int offset;
-   bool negate; /* Preceded by NOT */
-   bool group;  /* Was enclosed in parentheses */
+   int negate; /* Preceded by NOT */
+   int group;  /* Was enclosed in parentheses */
 };
 
 int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr);
-- 
2.43.0


From 235bea8348edf28140310a659eb49bcb678f6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:30 +0000
Subject: [PATCH 043/101] fix: kludge added by REMAPMSG could overflow a buffer

---
 src/crashmail/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 142bc67..4607396 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -720,7 +720,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    struct Route *tmproute;
    struct jbList oldlist;
    struct TextChunk *tmp;
-   char buf[100];
+   char buf[200];
    char oldto[36],newto[36];
    struct Node4D olddest4d,newdest4d,my4d;
    uint32_t c,d;
-- 
2.43.0


From cf97c20b482b77c6544410caaabcf642d65303c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 044/101] fix: long DOMAIN overflowed a buffer

---
 src/crashmail/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 2a4859d..fed8e00 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -160,7 +160,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(!(jbstrcpy(LastAka->Domain,cfgbuf,200,&jbcpos)))
+         if(!(jbstrcpy(LastAka->Domain,cfgbuf,20,&jbcpos)))
          {
             strcpy(cfgerr,"Missing argument");
             osClose(cfgfh);
-- 
2.43.0


From 87106c55b416fd27b2345f2aca3682cdd66ee6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:40 +0000
Subject: [PATCH 045/101] fix: bundle name did not fit in its buffer

---
 src/crashmail/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 2726226..ee390ef 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -175,7 +175,7 @@ struct ConfigNode
 
    struct jbList RemoteAFList;
 
-   char LastArcName[12];
+   char LastArcName[13];
 	
    /* Stats */
 
-- 
2.43.0


From 94bc674fac5eb62f7a9c2b75eecf1f0c9832d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 046/101] fix: packer killed by a signal was taken as success

---
 src/oslib_linux/osmisc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oslib_linux/osmisc.c b/src/oslib_linux/osmisc.c
index 15b0989..ebc7fd5 100644
--- a/src/oslib_linux/osmisc.c
+++ b/src/oslib_linux/osmisc.c
@@ -46,6 +46,9 @@ int osExecute(char *cmd)
 	
    res=system(cmd);
 
+   if(res == -1 || !WIFEXITED(res))
+      return(255); /* Could not be started or was killed */
+
    return WEXITSTATUS(res);
 }
 
-- 
2.43.0


From 3b158bd5770b188b2a4347d4a358274f73c9cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:33 +0000
Subject: [PATCH 047/101] fix: write errors reported on close or rename lost
 packets

---
 src/crashmail/crashmail.c | 10 ++++++++--
 src/crashmail/misc.c      |  4 +++-
 src/crashmail/pkt.c       |  6 +++++-
 src/oslib/osfile.h        |  2 +-
 src/oslib_linux/osfile.c  | 11 +++++++----
 src/oslib_win32/osfile.c  |  8 ++++++--
 6 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c0c884e..c32b8bd 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,10 +152,16 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
+   if(nomem || ioerror)
+      success=FALSE; /* Packets could not be written */
+
    if(success)
    {
-      ArchiveOutbound();
-      ProcessSafeDelete();
+      if(ArchiveOutbound())
+         ProcessSafeDelete();
+
+      else
+         success=FALSE;
    }
 
    for(i=0;AvailMessagebases[i].name;i++)
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 1329d2f..d3d95e1 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -389,7 +389,9 @@ bool copyfile(char *file,char *newfile)
 
    free(copybuf);
 
-   osClose(ofh);
+   if(!osClose(ofh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
    osClose(ifh);
 
    if(ioerror)
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index cb28f80..d5ade4b 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -699,7 +699,9 @@ void FinishPacket(struct Pkt *pkt)
 {
    pktWrite(pkt,(uint8_t *)"",1);
    pktWrite(pkt,(uint8_t *)"",1);
-   osClose(pkt->fh);
+
+   if(!osClose(pkt->fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(pkt->hexnum)
    {
@@ -739,6 +741,8 @@ void FinishPacket(struct Pkt *pkt)
 			uint32_t err=osError();
 			LogWrite(1,SYSTEMERR,"Failed to rename %s to %s",oldname,newname);
 			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+			ioerror=TRUE;
+			ioerrornum=err;
 		}	
    }
    
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 8b55d20..9658551 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -15,7 +15,7 @@ typedef void *osFile;
 #define OFFSET_END	 1 
 
 osFile osOpen(char *name,uint32_t mode);
-void osClose(osFile os);
+bool osClose(osFile os);
 int osGetChar(osFile os);
 uint32_t osRead(osFile os,void *buf,uint32_t bytes);
 uint32_t osFGets(osFile os,char *str,uint32_t max);
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 8982646..11e35d0 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -29,9 +29,12 @@ osFile osOpen(char *name,uint32_t mode)
    return (osFile) fh;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
-    fclose((FILE *)os);
+   if(fclose((FILE *)os)!=0)
+		return(FALSE);
+
+	return(TRUE);
 }
 
 int osGetChar(osFile os)
@@ -111,7 +114,7 @@ bool osFPrintf(osFile os,char *fmt,...)
    res=vfprintf(os,fmt,args);
    va_end(args);
 	
-	if(!res)
+	if(res < 0)
 		return(FALSE);
 		
 	return(TRUE);
@@ -123,7 +126,7 @@ bool osVFPrintf(osFile os,char *fmt,va_list args)
 	
    res=vfprintf(os,fmt,args);
 	
-	if(!res)
+	if(res < 0)
 		return(FALSE);
 		
 	return(TRUE);
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 528865b..fa56501 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -142,16 +142,20 @@ osFile osOpen(char *name,ulong mode)
    return (osFile)os;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
    struct osfile *osf=(struct osfile *)os;
+   bool res=TRUE;
 
    if(osf->lastaccessmode == LASTACCESS_WRITE)
-      win32writebuffer(osf);
+      if(!win32writebuffer(osf))
+         res=FALSE;
 
    CloseHandle(osf->h);
    osFree(osf->buf);
    osFree(osf);
+
+   return(res);
 }
 
 ulong osRead(osFile os,void *buf,ulong bytes)
-- 
2.43.0


From 473f72c9384402fa34204dc23cf6986e9ba6c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:28 +0000
Subject: [PATCH 048/101] fix: errors when writing flow and orphan files went
 unnoticed

---
 src/crashmail/outbound.c | 79 +++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 22 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 263aef5..b175929 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -447,20 +447,21 @@ void HandleOrphan(char *name)
 	UnlockBasename(basename);
 }
 
-void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
+bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 {
-   char buf[200];
+   char buf[200],name[200];
    osFile fh;
+   bool res;
 
-   strcpy(buf,file);
-   strcat(buf,".orphan");
+   strcpy(name,file);
+   strcat(name,".orphan");
 
-   if(!(fh=osOpen(buf,MODE_NEWFILE)))
+   if(!(fh=osOpen(name,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to open \"%s\", cannot make .orphan file",buf);
+      LogWrite(1,SYSTEMERR,"Failed to open \"%s\", cannot make .orphan file",name);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    sprintf(buf,"%s %d:%d/%d.%d",prinames[(int)type],n4d->Zone,n4d->Net,n4d->Node,n4d->Point);
@@ -469,16 +470,27 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 
    strcat(buf,"\n");
 
-   osPuts(fh,buf);
-   osClose(fh);
+   res=osPuts(fh,buf);
+
+   if(!osClose(fh) || !res)
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write \"%s\"",name);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+		osDelete(name);
+      return(FALSE);
+   }
+
+   return(TRUE);
 }
 
 /* Only call if file is already locked */
 /* MakeOrphan() should be called if necessary */
 bool doAddFlow(char *filename,char *basename,char type,long mode)
 {
-   char buf[200],letter,*prefix;
+   char buf[200],name[200],letter,*prefix;
    osFile fh;
+   bool eol,res;
 
    switch(type)
    {
@@ -494,18 +506,21 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
       default:            letter='f';
    }
 
-   sprintf(buf,"%s.%clo",basename,letter);
+   sprintf(name,"%s.%clo",basename,letter);
 
-   if(!(fh=osOpen(buf,MODE_READWRITE)))
+   if(!(fh=osOpen(name,MODE_READWRITE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",buf);
+      LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",name);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       return(FALSE);
    }
 
+   eol=TRUE;
+
    while(osFGets(fh,buf,200))
    {
+      eol=(buf[strlen(buf)-1]=='\n');
       striptrail(buf);
 
       if(buf[0]=='#') memmove(buf, buf + 1, strlen (buf));
@@ -530,10 +545,23 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    if(mode == FLOW_DELETE)
       prefix="^";
 
-   if(config.cfg_Flags & CFG_FLOWCRLF) osFPrintf(fh,"%s%s\r\n",prefix,filename);
-   else                         osFPrintf(fh,"%s%s\n",prefix,filename);
+   /* A line that could not be completed earlier */
 
-   osClose(fh);
+   res=TRUE;
+
+   if(!eol)
+      res=osFPrintf(fh,config.cfg_Flags & CFG_FLOWCRLF ? "\r\n" : "\n");
+
+   if(res)
+      res=osFPrintf(fh,"%s%s%s",prefix,filename,config.cfg_Flags & CFG_FLOWCRLF ? "\r\n" : "\n");
+
+   if(!osClose(fh) || !res)
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write to \"%s\"",name);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      return(FALSE);
+   }
 
    return(TRUE);
 }
@@ -542,22 +570,29 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
 bool AddFlow(char *filename,struct Node4D *n4d,char type,long mode)
 {
 	char basename[200];
+	bool res=TRUE;
 
    MakeBaseName(n4d,basename);
 
 	if(!LockBasename(basename))
 	{
 		printf("Cannot add to %s, node is busy...\n",GetFilePart(basename));
-		MakeOrphan(filename,n4d,type,mode);
-		return(FALSE);
+		res=MakeOrphan(filename,n4d,type,mode);
 	}
+	else
+	{
+		if(!doAddFlow(filename,basename,type,mode))
+			res=MakeOrphan(filename,n4d,type,mode);
 
-	if(!doAddFlow(filename,basename,type,mode))
-		MakeOrphan(filename,n4d,type,mode);
+		UnlockBasename(basename);
+	}
 
-	UnlockBasename(basename);
+	/* The file would never be sent */
 
-	return(TRUE);
+	if(!res && osExists(filename))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
+	return(res);
 }
 
 bool MakePktTmp(char *name)
-- 
2.43.0


From 3cf81782c4176ee8c11315d94aff4cc1c0b9720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:24 +0000
Subject: [PATCH 049/101] fix: failures while adding packets to the outbound
 lost or damaged mail

---
 src/crashmail/handle.c   |   9 ++-
 src/crashmail/misc.c     |  12 ++--
 src/crashmail/outbound.c | 140 +++++++++++++++++++++++++++------------
 src/oslib_win32/osmisc.c |   2 +-
 4 files changed, 108 insertions(+), 55 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 8c87d77..5dfa7c5 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1668,10 +1668,13 @@ bool HandleNetmail(struct MemMessage *mm)
 					if(osExists(buf))
                {
 						MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
-                  copyfile(buf,buf2);
 
-						if(nomem || ioerror)
-							return(FALSE);
+                  if(!copyfile(buf,buf2))
+                  {
+                     ioerror=TRUE;
+                     ioerrornum=osError();
+                     return(FALSE);
+                  }
 
                   AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
                }
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index d3d95e1..67aa5f1 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -361,6 +361,7 @@ bool copyfile(char *file,char *newfile)
    osFile ifh,ofh;
    uint32_t len;
    char *copybuf;
+   bool res=TRUE;
 
    if(!(copybuf=(char *)malloc(COPYBUFSIZE)))
 	{
@@ -381,20 +382,17 @@ bool copyfile(char *file,char *newfile)
       return(FALSE);
    }
 
-   while((len=osRead(ifh,copybuf,COPYBUFSIZE)) && !ioerror)
-	{
-      if(!osWrite(ofh,copybuf,len))
-			{ ioerror=TRUE; ioerrornum=osError(); }
-	}
+   while(res && (len=osRead(ifh,copybuf,COPYBUFSIZE)))
+      res=osWrite(ofh,copybuf,len);
 
    free(copybuf);
 
    if(!osClose(ofh))
-		{ ioerror=TRUE; ioerrornum=osError(); }
+      res=FALSE;
 
    osClose(ifh);
 
-   if(ioerror)
+   if(!res)
    {
       osDelete(newfile);
       return(FALSE);
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index b175929..1d833bb 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -643,7 +643,8 @@ bool PackFile(char *file)
    struct Node4D n4d;
    char type;
 	char letter;
-	osFile ifh,ofh;
+	osFile ifh,ofh,oldfh;
+	bool ok;
 
    /* Parse filename */
 
@@ -729,7 +730,14 @@ bool PackFile(char *file)
 				cnode->Node.Point,
 				cnode->Packer->Name);
 
-         osRename(file,pktname);
+         /* The original is kept until the packet is in the outbound */
+
+         if(!copyfile(file,pktname))
+         {
+            LogWrite(1,SYSTEMERR,"Failed to copy file \"%s\" to \"%s\"",file,pktname);
+				UnlockBasename(basename);
+				return(FALSE);
+         }
 
          if(config.cfg_BeforePack[0])
          {
@@ -738,7 +746,7 @@ bool PackFile(char *file)
 
             if(res != 0)
             {
-	            osRename(pktname,file);
+	            osDelete(pktname);
                LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
 	   			UnlockBasename(basename);
    				return(FALSE);
@@ -755,11 +763,17 @@ bool PackFile(char *file)
             osDelete(pktname);
 
             if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+               if(!MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE))
+               {
+                  UnlockBasename(basename);
+                  return(FALSE);
+               }
+
+            osDelete(file);
          }
          else
          {
-	         osRename(pktname,file);
+	         osDelete(pktname);
             LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
 				UnlockBasename(basename);
 				return(FALSE);
@@ -775,21 +789,30 @@ bool PackFile(char *file)
 
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
-				cnode->Node.Zone,
-				cnode->Node.Net,
-				cnode->Node.Node,
-				cnode->Node.Point);
+				n4d.Zone,
+				n4d.Net,
+				n4d.Node,
+				n4d.Point);
 
-         if(!movefile(file,pktname))
+         if(!copyfile(file,pktname))
          {
-            LogWrite(1,SYSTEMERR,"Failed to move file \"%s\" to \"%s\"",file,pktname);
+            LogWrite(1,SYSTEMERR,"Failed to copy file \"%s\" to \"%s\"",file,pktname);
 				UnlockBasename(basename);
 				return(FALSE);
          }
          else
          {
-            if(!doAddFlow(pktname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+            type=cnode ? cnode->EchomailPri : PKTS_NORMAL;
+
+            if(!doAddFlow(pktname,basename,type,FLOW_DELETE))
+               if(!MakeOrphan(pktname,&n4d,type,FLOW_DELETE))
+               {
+                  osDelete(pktname);
+                  UnlockBasename(basename);
+                  return(FALSE);
+               }
+
+            osDelete(file);
          }
       }
    }
@@ -815,6 +838,11 @@ bool PackFile(char *file)
 		strcpy(buf,basename);
 		strcat(buf,buf2);
 
+		/* The new packet is made in a temporary file */
+
+		strcpy(pktname,basename);
+		strcat(pktname,".tmp");
+
 		LogWrite(4,TOSSINGINFO,"Sending unpacked netmail to %d:%d/%d.%d (%s)",
 			n4d.Zone,
 			n4d.Net,
@@ -839,54 +867,78 @@ bool PackFile(char *file)
 			return(FALSE);
 		}
 		
+		if(!(ofh=osOpen(pktname,MODE_NEWFILE)))
+		{
+			uint32_t err=osError();
+			LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",pktname);
+			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
+			osClose(ifh);
+			osFree(copybuf);
+			UnlockBasename(basename);
+			return(FALSE);
+		}
+
+		ok=TRUE;
+
 		if(osExists(buf))
 		{
-			if(!(ofh=osOpen(buf,MODE_READWRITE)))
+			/* Copy old packet without the two bytes at the end */
+
+			if((oldfh=osOpen(buf,MODE_OLDFILE)))
 			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
-			}
+				off_t left;
 
-			osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
-			osSeek(ofh,-2,OFFSET_END);
-		}
-		else
-		{
-			if(!(ofh=osOpen(buf,MODE_NEWFILE)))
+				osSeek(oldfh,0,OFFSET_END);
+				left=osFTell(oldfh)-2;
+				osSeek(oldfh,0,OFFSET_BEGINNING);
+
+				while(ok && left > 0)
+				{
+					readlen=osRead(oldfh,copybuf,left > COPYBUFSIZE ? COPYBUFSIZE : left);
+
+					if(readlen == 0 || !osWrite(ofh,copybuf,readlen))
+						ok=FALSE;
+
+					left-=readlen;
+				}
+
+				osClose(oldfh);
+				osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
+			}
+			else
 			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
+				ok=FALSE;
 			}
 		}
 
-		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
-		{
-			if(!osWrite(ofh,copybuf,readlen))
-				{ ioerror=TRUE; ioerrornum=osError(); }
-		}
+		while(ok && (readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
+			ok=osWrite(ofh,copybuf,readlen);
 				
 		osClose(ifh);
-		osClose(ofh);
+
+		if(!osClose(ofh))
+			ok=FALSE;
+
 		osFree(copybuf);
 
+		if(ok)
+			ok=osRename(pktname,buf);
+
+		if(!ok)
+		{
+			uint32_t err=osError();
+			LogWrite(1,SYSTEMERR,"Failed to write to \"%s\"",buf);
+			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
+			osDelete(pktname);
+			UnlockBasename(basename);
+			return(FALSE);
+		}
+
 		osDelete(file);
    }
 
 	UnlockBasename(basename);
 	
-	if(ioerror)
-		return(FALSE);
-	
 	return(TRUE);
 }
 
diff --git a/src/oslib_win32/osmisc.c b/src/oslib_win32/osmisc.c
index 8e6c5dd..e4843cd 100644
--- a/src/oslib_win32/osmisc.c
+++ b/src/oslib_win32/osmisc.c
@@ -64,7 +64,7 @@ bool osMkDir(char *dir)
 
 bool osRename(char *oldfile,char *newfile)
 {
-   if(MoveFile(oldfile,newfile))
+   if(MoveFileEx(oldfile,newfile,MOVEFILE_REPLACE_EXISTING))
 		return(TRUE);
 
 	return(FALSE);
-- 
2.43.0


From 1fe00e14188da802cc1ee7eaa73a555021ac125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 050/101] fix: failure or crash while updating the config file
 lost it or the changes

---
 src/crashmail/config.c    | 21 +++++++++++++++++----
 src/crashmail/crashmail.c | 23 ++++++++++++++---------
 src/oslib_linux/osfile.c  |  7 ++++++-
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index fed8e00..041a668 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2362,11 +2362,24 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
       }
 
    osClose(oldfh);
-   osClose(newfh);
 
-   osDelete(cfgbak);
-   osRename(cfg->filename,cfgbak);
-   osRename(cfgtemp,cfg->filename);
+   if(!osClose(newfh))
+   {
+		uint32_t err=osError();
+      sprintf(cfgerr,"Unable to write to config file %s (error: %s)",cfgtemp,osErrorMsg(err));
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
+
+   /* There is always a complete config file */
+
+   if(!copyfile(cfg->filename,cfgbak) || !osRename(cfgtemp,cfg->filename))
+   {
+		uint32_t err=osError();
+      sprintf(cfgerr,"Unable to replace config file %s (error: %s)",cfg->filename,osErrorMsg(err));
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
 
    cfg->changed=FALSE;
 
diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c32b8bd..ba4c50a 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -147,7 +147,7 @@ void AfterScanToss(bool success)
 {
    struct Area *area;
    struct ConfigNode *cnode;
-   char errbuf[200];
+   char errbuf[500];
    uint32_t day,d,e,i;
 
    ClosePackets();
@@ -155,6 +155,19 @@ void AfterScanToss(bool success)
    if(nomem || ioerror)
       success=FALSE; /* Packets could not be written */
 
+   /* The config file is updated before mail is sent and deleted */
+
+   if(success && config.changed)
+   {
+      LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
+
+      if(!UpdateConfig(&config,errbuf))
+      {
+         LogWrite(1,SYSTEMERR,"%s",errbuf);
+         success=FALSE;
+      }
+   }
+
    if(success)
    {
       if(ArchiveOutbound())
@@ -214,14 +227,6 @@ void AfterScanToss(bool success)
       }
 
       WriteStats(config.cfg_StatsFile);
-
-      if(config.changed)
-      {
-         LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
-
-         if(!UpdateConfig(&config,errbuf))
-            LogWrite(1,SYSTEMERR,errbuf);
-      }
    }
 
    if(config.cfg_NodelistType)
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 11e35d0..95f76f0 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -29,9 +29,14 @@ osFile osOpen(char *name,uint32_t mode)
    return (osFile) fh;
 }
 
+/* Returns FALSE if not everything could be written */
 bool osClose(osFile os)
 {
-   if(fclose((FILE *)os)!=0)
+   int err;
+
+   err=ferror((FILE *)os);
+
+   if(fclose((FILE *)os)!=0 || err)
 		return(FALSE);
 
 	return(TRUE);
-- 
2.43.0


From af30bf48e70b93a4440a41d8d92a1d9dd868c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:26 +0000
Subject: [PATCH 051/101] fix: incomplete messages were left in MSG areas

---
 src/crashmail/mb_msg.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index e6b953f..2d86afc 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -482,6 +482,7 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    struct Path *path;
    osFile fh;
    int c;
+   char temp[210];
    
    strcpy(Msg.From,mm->From);
    strcpy(Msg.To,mm->To);
@@ -519,9 +520,16 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
       Msg.OrigPoint  =  0;
    }
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   /* Write to a temporary file so that there are only complete messages */
+
+   strcpy(temp,file);
+   strcat(temp,".tmp");
+
+   if(!(fh=osOpen(temp,MODE_NEWFILE)))
    {
-      printf("Failed to write to %s\n",file);
+      printf("Failed to write to %s\n",temp);
+      ioerror=TRUE;
+      ioerrornum=osError();
       return(FALSE);
    }
 
@@ -547,6 +555,7 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
       if(!(sbbuf=mmMakeSeenByBuf(&mm->SeenBy)))
       {
          osClose(fh);
+         osDelete(temp);
          return(FALSE);
       }
 
@@ -578,10 +587,17 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
+   if(!ioerror && !osRename(temp,file))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
+   {
+      osDelete(temp);
       return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From 3d1b33bf9489784d8394a4e3673c2d9cfe42694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:29 +0000
Subject: [PATCH 052/101] fix: messages of a failed run were taken as
 duplicates in the next run

---
 src/crashmail/crashmail.c |   2 +
 src/crashmail/dupe.c      | 152 +++++++++++++++++++++-----------------
 src/crashmail/dupe.h      |   1 +
 3 files changed, 89 insertions(+), 66 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index ba4c50a..9685185 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -170,6 +170,8 @@ void AfterScanToss(bool success)
 
    if(success)
    {
+      CommitDupeDB();
+
       if(ArchiveOutbound())
          ProcessSafeDelete();
 
diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 10e643e..f973496 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -54,18 +54,32 @@ struct dupeentry
 {
    uint32_t offset;
    uint32_t crc32;
+   char *data; /* Entry added in this session, not yet in the file */
+   uint16_t size;
 };
 
 bool dupechanged;
+bool dupecommit;
 
 struct dupeentry *dupebuf;
 uint32_t dupeentrynum,dupeentrymax;
 osFile dupefh;
 
-void adddupeindex(uint32_t offset,uint32_t crc32)
+void adddupeindex(uint32_t offset,uint32_t crc32,char *data,uint16_t size)
 {
+   if(config.cfg_DupeSize == 0)
+   {
+      if(data) osFree(data);
+      return;
+   }
+
+   if(dupebuf[dupeentrynum].data)
+      osFree(dupebuf[dupeentrynum].data);
+
    dupebuf[dupeentrynum].offset=offset;
    dupebuf[dupeentrynum].crc32=crc32;
+   dupebuf[dupeentrynum].data=data;
+   dupebuf[dupeentrynum].size=size;
 
    dupeentrynum++;
 
@@ -76,34 +90,35 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint32_t c,osFile oldfh,osFile newfh)
+bool readdupe(uint32_t c,char *buf,uint16_t *size)
 {
-   char buf[300];
-   uint16_t size;
+   if(dupebuf[c].data)
+   {
+      *size=dupebuf[c].size;
+      memcpy(buf,dupebuf[c].data,*size);
+      return(TRUE);
+   }
 
-   osSeek(oldfh,dupebuf[c].offset,OFFSET_BEGINNING);
+   osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
 
-   if(osRead(oldfh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
-      return;
+   if(osRead(dupefh,size,sizeof(uint16_t))!=sizeof(uint16_t))
+      return(FALSE);
 
-   if(osRead(oldfh,buf,size) != size)
-      return;
+   if(*size > 300)
+      return(FALSE);
 
-   if(!osWrite(newfh,&size,sizeof(uint16_t)))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+   return(osRead(dupefh,buf,(uint32_t)*size) == *size);
+}
 
-   if(!osWrite(newfh,buf,size))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+bool copydupe(uint32_t c,osFile newfh)
+{
+   char buf[300];
+   uint16_t size;
+
+   if(!readdupe(c,buf,&size))
+      return(TRUE);
+
+   return(osWrite(newfh,&size,sizeof(uint16_t)) && osWrite(newfh,buf,size));
 }
 
 bool OpenDupeDB(void)
@@ -112,7 +127,7 @@ bool OpenDupeDB(void)
    uint32_t offset,crc32,*crc32p;
    uint16_t size,res;
 
-   if(!(dupebuf=osAlloc(config.cfg_DupeSize*sizeof(struct dupeentry))))
+   if(!(dupebuf=osAllocCleared((config.cfg_DupeSize+1)*sizeof(struct dupeentry))))
    {
       LogWrite(1,SYSTEMERR,"Not enough memory for dupe-check buffer\n");
       return(FALSE);
@@ -122,6 +137,7 @@ bool OpenDupeDB(void)
    dupeentrymax=0;
 
    dupechanged=FALSE;
+   dupecommit=FALSE;
 
    if(!(dupefh=osOpen(config.cfg_DupeFile,MODE_READWRITE)))
    {
@@ -163,15 +179,14 @@ bool OpenDupeDB(void)
 
       if(osRead(dupefh,buf,(uint32_t)size) != size)
       {
-         LogWrite(1,SYSTEMERR,"Error in dupe file %s, exiting...",config.cfg_DupeFile);
-         osClose(dupefh);
-         return(FALSE);
+         LogWrite(1,SYSTEMERR,"Last entry in dupe file %s is incomplete",config.cfg_DupeFile);
+         break;
       }
 
       crc32p=(uint32_t *)buf;
       crc32=*crc32p;
 
-      adddupeindex(offset,crc32);
+      adddupeindex(offset,crc32,NULL,0);
 
       offset += size+2;
    }
@@ -181,15 +196,33 @@ bool OpenDupeDB(void)
    return(TRUE);
 }
 
+void FreeDupeBuf(void)
+{
+   uint32_t c;
+
+   for(c=0;c<dupeentrymax;c++)
+      if(dupebuf[c].data) osFree(dupebuf[c].data);
+
+   osFree(dupebuf);
+   osClose(dupefh);
+}
+
+/* The messages handled so far have reached their destinations */
+void CommitDupeDB(void)
+{
+   dupecommit=TRUE;
+}
+
 void CloseDupeDB(void)
 {
    osFile newfh;
    uint32_t c;
+   bool res;
    char duptemp[200];
 
-   if(!dupechanged)
+   if(!dupechanged || !dupecommit)
    {
-      osClose(dupefh);
+      FreeDupeBuf();
       return;
    }
 
@@ -202,60 +235,50 @@ void CloseDupeDB(void)
       LogWrite(1,SYSTEMERR,"Failed to open temporary dupe file %s for writing",duptemp);
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
 
-      osFree(dupebuf);
-      osClose(dupefh);
+      FreeDupeBuf();
 
       return;
    }
 
-   osWrite(newfh,DUPES_IDENTIFIER,4);
+   res=osWrite(newfh,DUPES_IDENTIFIER,4);
 
-   for(c=dupeentrynum;c<dupeentrymax;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=dupeentrynum;c<dupeentrymax && res;c++)
+      res=copydupe(c,newfh);
 
-   for(c=0;c<dupeentrynum;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=0;c<dupeentrynum && res;c++)
+      res=copydupe(c,newfh);
 
-   osClose(dupefh);
-   osClose(newfh);
-   osFree(dupebuf);
+   FreeDupeBuf();
 
-   dupechanged=FALSE;
+   if(!osClose(newfh) || !res || !osRename(duptemp,config.cfg_DupeFile))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write dupe file %s",config.cfg_DupeFile);
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(duptemp);
+   }
 
-   osDelete(config.cfg_DupeFile);
-   osRename(duptemp,config.cfg_DupeFile);
+   dupechanged=FALSE;
 
    return;
 }
 
 void AddDupeBuf(char *buf,uint16_t size)
 {
-   uint32_t offset;
    uint32_t crc32,*crc32p;
-
-   osSeek(dupefh,0,OFFSET_END);
-   offset=osFTell(dupefh);
+   char *data;
 
    crc32p=(uint32_t *)buf;
    crc32=*crc32p;
 
-   if(!osWrite(dupefh,&size,sizeof(uint16_t)))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
-
-   if(!osWrite(dupefh,buf,size))
+   if(!(data=osAlloc(size)))
    {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      nomem=TRUE;
       return;
    }
 
-   adddupeindex(offset,crc32);
+   memcpy(data,buf,size);
+   adddupeindex(0,crc32,data,size);
 
    dupechanged=TRUE;
 }
@@ -304,13 +327,10 @@ bool CheckDupe(struct MemMessage *mm)
       {
          /* CRC matches, check rest */
 
-         osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
-
-         if(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
+         if(readdupe(c,buf,&size))
             if(size == dsize)
-               if(osRead(dupefh,buf,(uint32_t)size) == size)
-                  if(dupecomp(buf,dbuf,dsize) == 0)
-                     return(TRUE); /* Dupe */
+               if(dupecomp(buf,dbuf,dsize) == 0)
+                  return(TRUE); /* Dupe */
       }
 
 
diff --git a/src/crashmail/dupe.h b/src/crashmail/dupe.h
index accab05..18c9d3a 100644
--- a/src/crashmail/dupe.h
+++ b/src/crashmail/dupe.h
@@ -1,6 +1,7 @@
 #include "shared/types.h"
 
 bool OpenDupeDB(void);
+void CommitDupeDB(void);
 void CloseDupeDB(void);
 
 bool CheckDupe(struct MemMessage *mm);
-- 
2.43.0


From b5033a810e13ea3e9753546b3b8be467bea0d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:11 +0000
Subject: [PATCH 053/101] fix: bad file that could not be renamed was deleted

---
 src/crashmail/misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 67aa5f1..50e5c89 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -308,6 +308,9 @@ void BadFile(char *filename,char *comment)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to move %s to %s",filename,destname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+
+      ioerror=TRUE; /* So that the file is not deleted */
+      ioerrornum=err;
       return;
    }
 
-- 
2.43.0


From 3a9dd8a019ffb0c2bb4e5a2c51a567e16cbfcab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:12 +0000
Subject: [PATCH 054/101] fix: attached file moved by a failed run was looked
 for in the inbound

---
 src/crashmail/handle.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 5dfa7c5..dbc38a9 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1688,7 +1688,9 @@ bool HandleNetmail(struct MemMessage *mm)
 					MakeFullPath(config.cfg_Inbound,GetFilePart(buf),buf2,200);
 					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf3,200);
 
-               if(movefile(buf2,buf3))
+               /* The file may already have been moved by a run that failed later on */
+
+               if(movefile(buf2,buf3) || (!osExists(buf2) && osExists(buf3)))
                {
                   AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE);
                }
-- 
2.43.0


From 331895a61b72f7c6e46441ced6ba1acd1240bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:58 +0000
Subject: [PATCH 055/101] fix: write errors when adding a message to a JAM base
 went unnoticed

---
 src/jamlib/message.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 457f174..7368eaa 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -443,8 +443,14 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
    **  Add index
    */
 
+   /* the index must not point to something that could not be written */
+   if ( fflush( Base_PS->TxtFile_PS ) || fflush( Base_PS->HdrFile_PS ) ) {
+		Base_PS->Errno_I = errno;
+		return JAM_IO_ERROR;
+   }
+
    /* write index record */
-   if ( 1 > fwritejamindex(Base_PS->IdxFile_PS,&Index_S) ) {
+   if ( 1 > fwritejamindex(Base_PS->IdxFile_PS,&Index_S) || fflush( Base_PS->IdxFile_PS ) ) {
 		Base_PS->Errno_I = errno;
 		return JAM_IO_ERROR;
    }
-- 
2.43.0


From 7063fddb6b05af517c0982ba24f321ef74cb1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:58 +0000
Subject: [PATCH 056/101] fix: JAM base that could not be opened was emptied

---
 src/crashmail/mb_jam.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index b1c936d..2385742 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -35,6 +35,9 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 {
    int c;
    struct openbase *thisbase;
+   struct osFileEntry *fe;
+   uint32_t size;
+   char buf[200];
 
    /* See if that area already is open */
 
@@ -74,6 +77,20 @@ s_JamBase *jam_openbase(struct jam_Area *area)
    {
       if(thisbase->Base_PS) free(thisbase->Base_PS);
 
+      sprintf(buf,"%.150s.jdx",area->area->Path);
+
+      if((fe=osGetFileEntry(buf)))
+      {
+         size=fe->Size;
+         osFree(fe);
+
+         if(size != 0)
+         {
+            LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",area->area->Path);
+            return(NULL);
+         }
+      }
+
       LogWrite(2,SYSTEMINFO,"Creating JAM messagebase \"%s\"",area->area->Path);
 
       if(JAM_CreateMB(area->area->Path,1,&thisbase->Base_PS))
-- 
2.43.0


From ee721b75d97c420e8d0afdfd6767b99284eb19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:53 +0000
Subject: [PATCH 057/101] fix: JAM base whose creation was interrupted could
 not be used

---
 src/crashmail/mb_jam.c | 14 +++++++++++++-
 src/jamlib/mbase.c     |  5 ++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2385742..20c3438 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -36,8 +36,10 @@ s_JamBase *jam_openbase(struct jam_Area *area)
    int c;
    struct openbase *thisbase;
    struct osFileEntry *fe;
+   s_JamBaseHeader Header_S;
    uint32_t size;
    char buf[200];
+   int res;
 
    /* See if that area already is open */
 
@@ -73,7 +75,17 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 
    /* Open area */
 
-   if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
+   res=JAM_OpenMB(area->area->Path,&thisbase->Base_PS);
+
+   if(res == 0 && JAM_GetMBSize(thisbase->Base_PS,&size) == 0 && size == 0 && JAM_ReadMBHeader(thisbase->Base_PS,&Header_S))
+   {
+      /* Empty and without header, creating it was interrupted */
+
+      JAM_CloseMB(thisbase->Base_PS);
+      res=JAM_IO_ERROR;
+   }
+
+   if(res)
    {
       if(thisbase->Base_PS) free(thisbase->Base_PS);
 
diff --git a/src/jamlib/mbase.c b/src/jamlib/mbase.c
index 664f0af..fac85c1 100644
--- a/src/jamlib/mbase.c
+++ b/src/jamlib/mbase.c
@@ -391,7 +391,10 @@ int JAM_WriteMBHeader( s_JamBase* Base_PS, s_JamBaseHeader* Header_PS )
 	return JAM_IO_ERROR;
     }
 
-    fflush( Base_PS->HdrFile_PS );
+    if ( fflush( Base_PS->HdrFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	return JAM_IO_ERROR;
+    }
 
     return 0;
 }
-- 
2.43.0


From e2bc6647eb4e093ed8d4b0aa54527c777966282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:53 +0000
Subject: [PATCH 058/101] fix: statistics file damaged by a failure kept the
 tosser from starting

---
 src/crashmail/stats.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/stats.c b/src/crashmail/stats.c
index 12fffcc..87b4da6 100644
--- a/src/crashmail/stats.c
+++ b/src/crashmail/stats.c
@@ -41,11 +41,16 @@ bool WriteStats(char *file)
    struct DiskNodeStats dnstat;
    osFile fh;
    uint32_t areas,nodes;
+   char tempfile[200];
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   /* The old statistics are replaced when the new ones are complete */
+
+   sprintf(tempfile,"%.190s.tmp",file);
+
+   if(!(fh=osOpen(tempfile,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",file);
+      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",tempfile);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       return(FALSE);
    }
@@ -109,7 +114,14 @@ bool WriteStats(char *file)
       osWrite(fh,&dnstat,sizeof(struct DiskNodeStats));
    }
 
-   osClose(fh);
+   if(!osClose(fh) || !osRename(tempfile,file))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write statistics to %s",file);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(tempfile);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From 14e85d4715dfa84bb10ba20e081ad978df3ed384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:52 +0000
Subject: [PATCH 059/101] fix: existing file that could not be opened for
 updating was emptied

---
 src/oslib_linux/osfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 95f76f0..6a99920 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdint.h>
 #include <string.h>
@@ -22,7 +23,7 @@ osFile osOpen(char *name,uint32_t mode)
 	}
 	else
 	{
-   	if(!(fh=fopen(name,"r+b")))
+   	if(!(fh=fopen(name,"r+b")) && errno == ENOENT)
 	      fh=fopen(name,"w+b");
 	}
 	
-- 
2.43.0


From c5f4ff83fa5eec9579d52a9670de82123589acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:56 +0000
Subject: [PATCH 060/101] fix: packet being read when the tosser was
 interrupted was taken as bad

---
 src/crashmail/pkt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index d5ade4b..0a1a65c 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -500,6 +500,13 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       }
    }
 
+   if(ctrlc)
+   {
+      osClose(fh);
+      mmFree(mm);
+      return(FALSE);
+   }
+
    if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0)
    {
       osClose(fh);
-- 
2.43.0


From 6b904df85bb030ebb31c750e88471191594c984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:56 +0000
Subject: [PATCH 061/101] fix: dupe file whose creation failed kept the tosser
 from starting

---
 src/crashmail/dupe.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index f973496..0e8f022 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -155,9 +155,6 @@ bool OpenDupeDB(void)
       /* New file */
 
 		LogWrite(3,TOSSINGINFO,"Creating new dupe file %s",config.cfg_DupeFile);
-
-      strcpy(buf,DUPES_IDENTIFIER);
-      osWrite(dupefh,buf,4);
    }
    else if(res != 4 || strcmp(buf,DUPES_IDENTIFIER)!=0)
    {
-- 
2.43.0


From ed593e4a70c765f830e6f184826a513fd8112d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 062/101] fix: long fields of a JAM message overran the buffers
 they were exported through

---
 src/crashmail/mb_jam.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 20c3438..d5a84de 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -780,7 +780,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,sizeof(buf)-1)+1);
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -793,7 +793,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,sizeof(buf)-1)+1);
 
             if(hasaddr)
             {
@@ -813,12 +813,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,sizeof(buf)-1)+1);
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,sizeof(buf)-1)+1);
             mystrncpy(mm->To,buf,36);
             break;
 
@@ -831,7 +831,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,sizeof(buf)-1)+1);
             mystrncpy(mm->Subject,buf,72);
             break;
 
@@ -841,7 +841,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,Field_PS->DatLen+1);
+            else mystrncpy(filesubject,Field_PS->Buffer,MIN(Field_PS->DatLen,sizeof(filesubject)-1)+1);
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -874,7 +874,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(&flagsbuf[8],Field_PS->Buffer,MIN(Field_PS->DatLen,sizeof(flagsbuf)-10)+1); /* Leave room for the CR */
             /* Don't add until attributes from header has been added */
             break;
       }
-- 
2.43.0


From e63a13b417809c21ceaad58687fe9c03ed30b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 063/101] fix: text and lock were kept when a JAM message could
 not be read

---
 src/crashmail/mb_jam.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index d5a84de..a743f4c 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -746,6 +746,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       {
          LogWrite(1,TOSSINGERR,"Failed to read message #%u in JAM messagebase \"%s\"",num,area->Path);
          JAM_DelSubPacket(SubPacket_PS);
+         osFree(msgtext);
          return(FALSE);
       }
 
@@ -1368,8 +1369,9 @@ int jam_linkmb(struct Area *area,uint32_t oldnum)
             Header_S.ReplyNext=msgs[c].ReplyNext;
 
             JAM_ChangeMsgHeader(ja->Base_PS,c,&Header_S);
-            JAM_UnlockMB(ja->Base_PS);
          }
+
+         JAM_UnlockMB(ja->Base_PS);
       }
 
    osFree(msgs);
-- 
2.43.0


From 1598cdb5b28d1678eb513d830804c0fa3014ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 064/101] fix: long receiver name overran a buffer when a JAM
 message was added

---
 src/jamlib/message.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 7368eaa..a3430dc 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -424,8 +424,13 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
 
 	   /* store username for index file */
 	   if ( Subfield_PS->LoID == JAMSFLD_RECVRNAME ) {
-	      memcpy( User_AC, Subfield_PS->Buffer, Subfield_PS->DatLen );
-	      User_AC[ Subfield_PS->DatLen ] = 0;
+	      uint32_t UserLen_I = Subfield_PS->DatLen;
+
+	      if ( UserLen_I > sizeof( User_AC ) - 1 )
+	         UserLen_I = sizeof( User_AC ) - 1;
+
+	      memcpy( User_AC, Subfield_PS->Buffer, UserLen_I );
+	      User_AC[ UserLen_I ] = 0;
 	   }
 	}
 
-- 
2.43.0


From b8884a82e175e49219b2f3c811d097c85dba4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 065/101] fix: damaged subfields of a JAM message were read
 past their end

---
 src/jamlib/message.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index a3430dc..80c0cf2 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -142,9 +142,15 @@ int JAM_ReadMsgHeader( s_JamBase* 	Base_PS,
 
 	    int		  Status_I;
 
+            if(Roof_PC - Ptr_PC < SIZE_JAMSAVESUBFIELD) {
+                JAM_DelSubPacket( SubPacket_PS );
+	        free (Buf_PC);
+                return JAM_CORRUPT_MSG;
+            }
+
             getjamsubfield(Ptr_PC,&Subfield_S);
 
-            if((char *)Subfield_S.Buffer + Subfield_S.DatLen > Roof_PC) {
+            if(Subfield_S.DatLen > (uint32_t)(Roof_PC - (char *)Subfield_S.Buffer)) {
                 JAM_DelSubPacket( SubPacket_PS );
 	        free (Buf_PC);
                 return JAM_CORRUPT_MSG;
-- 
2.43.0


From d207c860a8d10cb15ed4dd6db51990a59679de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 066/101] fix: crashgetnode read before the start of an empty
 line

---
 src/tools/crashgetnode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashgetnode.c b/src/tools/crashgetnode.c
index e152805..299d72d 100644
--- a/src/tools/crashgetnode.c
+++ b/src/tools/crashgetnode.c
@@ -29,7 +29,7 @@ bool nomem,diskfull;
 void strip(char *str)
 {                                                                                  int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) str[c]=0;
+   for(c=strlen(str)-1;c>=0 && str[c] < 33;c--) str[c]=0;
 }
                                                                   
 int main(int argc, char **argv)
-- 
2.43.0


From 303bc145a75c746767c84062b3c818fb1bd36dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 067/101] fix: 0:0/0 was found in every nodelist index

---
 src/cmnllib/cmnllib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmnllib/cmnllib.c b/src/cmnllib/cmnllib.c
index 4fd74da..a2903b2 100644
--- a/src/cmnllib/cmnllib.c
+++ b/src/cmnllib/cmnllib.c
@@ -111,7 +111,7 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 			idx.hub=cmnlgetuword(binbuf,10);
 			idx.offset=cmnlgetlong(binbuf,12);
 
-			found=TRUE;
+			found=(idx.offset != 0xffffffff); /* End of this nodelist */
 
 			if(cmnlidx->zone  != idx.zone)  found=FALSE;
 			if(cmnlidx->net   != idx.net)   found=FALSE;
-- 
2.43.0


From 54746bbc9f123f64b4593b57d1a94ddc63046d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 068/101] fix: crashgetnode used a line it could not read

---
 src/cmnllib/cmnllib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmnllib/cmnllib.c b/src/cmnllib/cmnllib.c
index a2903b2..d290c63 100644
--- a/src/cmnllib/cmnllib.c
+++ b/src/cmnllib/cmnllib.c
@@ -137,7 +137,7 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 	}
 
 	osSeek(fh,idx.offset,OFFSET_BEGINNING);
-	osFGets(fh,line,len);	
+	if(!osFGets(fh,line,len)) line[0]=0;
 	osClose(fh);
 
 	return(TRUE);	
-- 
2.43.0


From 798ac346973e3b8e4dec75f5e23b530d74bf43ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:31 +0000
Subject: [PATCH 069/101] fix: crashstats crashed on dates that cannot be shown

---
 src/tools/crashstats.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/tools/crashstats.c b/src/tools/crashstats.c
index a41f807..65c5e44 100644
--- a/src/tools/crashstats.c
+++ b/src/tools/crashstats.c
@@ -523,10 +523,12 @@ int main(int argc, char **argv)
    t=(time_t)DayStatsWritten * 24*60*60;
 
    tp=localtime(&firsttime);
-   sprintf(date,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
+   if(!tp) strcpy(date,"<Unknown>");
+   else sprintf(date,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
    
    tp=localtime(&t);
-   sprintf(date2,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
+   if(!tp) strcpy(date2,"<Unknown>");
+   else sprintf(date2,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
 
    printf("\nStatistics from %s to %s\n",date,date2);
    
@@ -544,7 +546,7 @@ int main(int argc, char **argv)
          {
             t=(DayStatsWritten-c)*24*60*60;
             tp=localtime(&t);
-            printf("   %02d",tp->tm_mday);
+            printf("   %02d",tp ? tp->tm_mday : 0);
          }
 
          printf("   Total\n============================================================================\n");
@@ -614,7 +616,8 @@ int main(int argc, char **argv)
                else
                {
                   tp=localtime(&sn->LastTime);
-                  sprintf(date2,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
+                  if(!tp) strcpy(date2,"<Unknown>");
+                  else sprintf(date2,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
                }
 
                if(sn->FirstTime==0)
@@ -624,7 +627,8 @@ int main(int argc, char **argv)
                else
                {
                   tp=localtime(&sn->FirstTime);
-                  sprintf(date,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
+                  if(!tp) strcpy(date,"<Unknown>");
+                  else sprintf(date,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
                }
 
                for(c=0;c<8;c++)
@@ -668,7 +672,8 @@ int main(int argc, char **argv)
          else
          {
             tp=localtime(&nsn->FirstTime);
-            sprintf(date,"%0d-%s-%0d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
+            if(!tp) strcpy(date,"<Unknown>");
+            else sprintf(date,"%0d-%s-%0d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
          }
 
          sprintf(buf,"%u:%u/%u.%u",nsn->Node.Zone,nsn->Node.Net,nsn->Node.Node,nsn->Node.Point);
-- 
2.43.0


From 3320981b45ce9eb1c3cf769738627d1f6b007041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:44 +0000
Subject: [PATCH 070/101] fix: origin line without an address was read past its
 end

---
 src/crashmail/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 50e5c89..6965b4b 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -592,12 +592,12 @@ bool ExtractAddress(char *origin, struct Node4D *n4d)
 
    pos++;
 
-   while(origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
+   while(origin[pos]!=13 && origin[pos]!=0 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
       /* Skip (FidoNet ... ) */
 
    e=0;
 
-   while(origin[pos]!=')' && e<49)
+   while(origin[pos]!=')' && origin[pos]!=0 && e<49)
       addr[e++]=origin[pos++];
 
    addr[e]=0;
-- 
2.43.0


From a72df69d3109e0c31185f62341d3293078219215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:44 +0000
Subject: [PATCH 071/101] fix: empty group name was written before the table of
 groups

---
 src/crashmail/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 041a668..a633e67 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -176,7 +176,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(!CorrectFlags(buf2))
+         if(buf2[0]==0 || !CorrectFlags(buf2))
          {
             sprintf(cfgerr,"Invalid group \"%s\"",buf2);
             osClose(cfgfh);
-- 
2.43.0


From 1697497ceca4d4e18f6f515afeefe7d628e2ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:44 +0000
Subject: [PATCH 072/101] fix: unterminated name in a nodelist index was read
 past its end

---
 src/cmnllib/cmnllib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cmnllib/cmnllib.c b/src/cmnllib/cmnllib.c
index d290c63..6fb8c65 100644
--- a/src/cmnllib/cmnllib.c
+++ b/src/cmnllib/cmnllib.c
@@ -92,6 +92,8 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 			return(FALSE);
 		}
 
+		nlname[99]=0;
+
 		idx.offset=0;
 
 		while(!found && idx.offset != 0xffffffff)
-- 
2.43.0


From a04d7181e42470d5ce5e52ead20a27205b641676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:54 +0000
Subject: [PATCH 073/101] fix: unterminated area name in a stats file was read
 past its end

---
 src/tools/crashstats.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/crashstats.c b/src/tools/crashstats.c
index 65c5e44..7e9bca3 100644
--- a/src/tools/crashstats.c
+++ b/src/tools/crashstats.c
@@ -446,6 +446,7 @@ int main(int argc, char **argv)
 
             jbAddNode(&StatsList,(struct jbNode *)sn);
 
+            dastat.Tagname[79]=0;
             strcpy(sn->Tagname,dastat.Tagname);
             sn->Dupes=dastat.Dupes;
             sn->Total=dastat.TotalTexts;
-- 
2.43.0


From a86d29d6c39cfc0d1313206e3d245b79ff8ae64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 074/101] fix: a nodelist given by base name also matched lists
 with a shorter name

---
 src/tools/crashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index c0bc4f4..6968421 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -91,7 +91,7 @@ void scandirfunc(char *file)
 
 	if(isnodelistending(file))
    {
-   	if(strnicmp(file,findfile,strlen(file)-4)==0)
+   	if(strlen(findfile)==strlen(file)-4 && strnicmp(file,findfile,strlen(file)-4)==0)
       {
 			MakeFullPath(finddir,file,buf,500);
 			
-- 
2.43.0


From 84b779db62e1912e4d2aa935ae86e30656ebba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:13 +0000
Subject: [PATCH 075/101] fix: overlapping copy of the nodelist name

---
 src/tools/crashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index 6968421..1e98be8 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -157,7 +157,7 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 		return;
 	}
 
-	strcpy(buf,(char *)GetFilePart(buf));
+	memmove(buf,GetFilePart(buf),strlen(GetFilePart(buf))+1);
 	printf("Processing nodelist %s...\n",buf);
 	osWrite(ifh,buf,100);
 
-- 
2.43.0


From 5159d848c148e33dec5abf063cd9a05eb2281ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:12 +0000
Subject: [PATCH 076/101] fix: crashmaint used KEEPNUM and KEEPDAYS of DEFAULT
 and pass-through areas for the area before them

---
 src/tools/crashmaint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index c5ddf0d..44a7de5 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -895,6 +895,8 @@ bool ReadConfig(char *file)
          jbstrcpy(tag,cfgbuf,80,&jbcpos); 
          jbstrcpy(aka,cfgbuf,80,&jbcpos);
 
+         LastArea=NULL;
+
          if(stricmp(tag,"DEFAULT")!=0 && strnicmp(tag,"DEFAULT_",8)!=0)
          {
 				if(jbstrcpy(mb,cfgbuf,20,&jbcpos))
-- 
2.43.0


From b4c184efea8e53da557449357df26368fb28cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:02 +0000
Subject: [PATCH 077/101] fix: crashmaint deleted messages dated tomorrow or
 later as too old

---
 src/tools/crashmaint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 44a7de5..5213713 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -317,7 +317,7 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
       {
-         if(today - msg->Day > area->KeepDays && msg->Num!=0)
+         if(today > msg->Day && today - msg->Day > area->KeepDays && msg->Num!=0)
          {
             sprintf(buf2,"%u.msg",msg->Num);
             MakeFullPath(area->Path,buf2,buf,200);
@@ -572,7 +572,7 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				if(day == 0)
 					day=Header_S.DateWritten / (24*60*60);
 
-			   if(today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
+			   if(today > day && today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
 				{
 					/* Not already deleted and too old*/
 
-- 
2.43.0


From 3db9eb5e2c215050f78d5f9330b6230c5b0239df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:00 +0000
Subject: [PATCH 078/101] fix: the highwater mark of a *.msg area was wrong
 after PACK if the message it pointed at was gone

---
 src/tools/crashmaint.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 5213713..56160ac 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -375,9 +375,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             sprintf(buf2,"%u.msg",msg->NewNum);
 				MakeFullPath(area->Path,buf2,newbuf,200);
 
-            if(highwater == msg->Num)
-               highwater=msg->NewNum;
-
             if(verbose)
                printf(" Renaming message %u to %u\n",msg->Num,msg->NewNum);
 
@@ -393,6 +390,19 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
       printf(" Area renumbered\n");
    }
 
+   if(highwater)
+   {
+      /* Set to the last remaining message that has been scanned */
+
+      num=0;
+
+      for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
+         if(msg->Num!=0 && msg->Num<=highwater)
+            num=(pack ? msg->NewNum : msg->Num);
+
+      highwater=num;
+   }
+
    jbFreeList(&MsgList);
 
    if(highwater!=oldhighwater)
-- 
2.43.0


From a1b9e3ce8691f80ca6ffd574d815ba5333da534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:28 +0000
Subject: [PATCH 079/101] fix: crashmaint PACK ignored errors when it copied
 the index of deleted messages

---
 src/jamlib/message.c   |  2 +-
 src/tools/crashmaint.c | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 80c0cf2..6fd22e1 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -507,7 +507,7 @@ int JAM_AddEmptyMessage( s_JamBase* 		Base_PS)
    Index_S.UserCRC = 0xffffffff;
 
    /* write index record */
-   if ( 1 > fwritejamindex(Base_PS->IdxFile_PS,&Index_S) ) {
+   if ( 1 > fwritejamindex(Base_PS->IdxFile_PS,&Index_S) || fflush( Base_PS->IdxFile_PS ) ) {
 	Base_PS->Errno_I = errno;
 	return JAM_IO_ERROR;
    }
diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 56160ac..b3f5aee 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -654,7 +654,16 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				{
 					if(firstwritten) 
 					{
-						JAM_AddEmptyMessage(NewBase_PS);
+						if(JAM_AddEmptyMessage(NewBase_PS))
+						{
+					      printf(" Failed to copy message %d (disk full?), cannot pack messagebase\n",num+basenum);
+							JAM_UnlockMB(Base_PS);
+							JAM_CloseMB(Base_PS);
+							JAM_UnlockMB(NewBase_PS);
+							JAM_CloseMB(NewBase_PS);
+							JAM_RemoveMB(NewBase_PS,buf);
+						   return(TRUE);
+						}
 					}
 					else 
 					{
@@ -679,7 +688,16 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				{
 					if(firstwritten) 
 					{
-						JAM_AddEmptyMessage(NewBase_PS);
+						if(JAM_AddEmptyMessage(NewBase_PS))
+						{
+					      printf(" Failed to copy message %d (disk full?), cannot pack messagebase\n",num+basenum);
+							JAM_UnlockMB(Base_PS);
+							JAM_CloseMB(Base_PS);
+							JAM_UnlockMB(NewBase_PS);
+							JAM_CloseMB(NewBase_PS);
+							JAM_RemoveMB(NewBase_PS,buf);
+						   return(TRUE);
+						}
 					}
 					else
 					{
-- 
2.43.0


From 20c4195c272ede34320bb5ee29322e562d82f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 080/101] fix: crashwrite added an empty line where CRLF was
 split by its buffer

---
 src/tools/crashwrite.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index dd148e0..353c114 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -109,7 +109,7 @@ int main(int argc, char **argv)
 	uint32_t pktnum,c,serial;
 	uint16_t attr;
 	char fromname[36],toname[36],subject[72],datetime[20],origin[80];
-	char pktname[30],fullname[200],readbuf[100];
+	char pktname[30],fullname[200],readbuf[100],lastchr;
 	int i;
 	
 	from4d.Zone=0;
@@ -330,8 +330,20 @@ int main(int argc, char **argv)
 			exit(OS_EXIT_ERROR);
       }
 
+      lastchr=0;
+
       while(osFGets(ifh,readbuf,100))
       {
+         /* CRLF may have been split by the end of the buffer */
+
+			if(lastchr == 0x0d && readbuf[0] == '\n')
+			{
+				lastchr='\n';
+				continue;
+			}
+
+			lastchr=readbuf[strlen(readbuf)-1];
+
 			for(i=0;readbuf[i];i++)
 				if(readbuf[i] == '\n') readbuf[i]=0x0d;
 
-- 
2.43.0


From 0a230f878e558f97470d03acaada2f331613b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 081/101] fix: crashwrite joined the tear line with a last line
 that had no end

---
 src/tools/crashwrite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 353c114..3f46124 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -350,6 +350,9 @@ int main(int argc, char **argv)
          osFPrintf(ofh,"%s",readbuf);
       }
 
+		if(lastchr && lastchr != '\n' && lastchr != 0x0d)
+			osFPrintf(ofh,"\x0d");
+
 		osClose(ifh);
 	}
 	
-- 
2.43.0


From 87f631ba0b52115bb980dba9c8150fdda13b5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 082/101] fix: crashwrite left a truncated packet and reported
 success when the disk was full

---
 src/tools/crashwrite.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 3f46124..f1c2d3f 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -366,7 +366,13 @@ int main(int argc, char **argv)
    osWrite(ofh,"",1);
    osWrite(ofh,"",1);
 
-   osClose(ofh);
+   if(!osClose(ofh))
+   {
+		printf("Failed to write packet %s (disk full?)\n",fullname);
+		osDelete(fullname);
+		osEnd();
+		exit(OS_EXIT_ERROR);
+   }
 
 	osEnd();
 
-- 
2.43.0


From 509bf2b1a75d9e8ec1070d6b351345e1542b88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:53 +0000
Subject: [PATCH 083/101] fix: without STATSFILE the statistics were written to
 a file named .tmp

---
 src/crashmail/stats.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/stats.c b/src/crashmail/stats.c
index 87b4da6..ca6269c 100644
--- a/src/crashmail/stats.c
+++ b/src/crashmail/stats.c
@@ -43,6 +43,9 @@ bool WriteStats(char *file)
    uint32_t areas,nodes;
    char tempfile[200];
 
+   if(!file[0])
+      return(TRUE); /* No STATSFILE in the configuration */
+
    /* The old statistics are replaced when the new ones are complete */
 
    sprintf(tempfile,"%.190s.tmp",file);
-- 
2.43.0


From b6e45c3e5e3046bc8b19a8167d8e8dc519a227bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:57 +0000
Subject: [PATCH 084/101] fix: received netmails were counted twice in the
 statistics

---
 src/crashmail/handle.c | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index dbc38a9..cf56100 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1185,42 +1185,21 @@ bool HandleNetmail(struct MemMessage *mm)
 {
    struct Area       *tmparea;
    struct Aka        *aka;
-   struct ConfigNode *cnode,*pktcnode;
+   struct ConfigNode *cnode;
    struct ImportNode *inode;
    struct Route      *tmproute;
 	struct Node4D     n4d,Dest4D;
    struct PatternNode *patternnode;
    struct AreaFixName *areafixname;
-   struct TextChunk *tmpchunk,*chunk;
+   struct TextChunk *chunk;
    bool istext;
    char buf[400],buf2[200],buf3[200],subjtemp[80];
    uint32_t c,d,jbcpos;
    time_t t;
    struct tm *tp;
-   uint32_t size;
 	uint8_t oldtype;
    bool headeronly;
 
-   /* Find orignode */
-
-   for(pktcnode=(struct ConfigNode *)config.CNodeList.First;pktcnode;pktcnode=pktcnode->Next)
-      if(Compare4D(&mm->PktOrig,&pktcnode->Node)==0) break;
-
-   /* Calculate size */
-
-   size=0;
-
-   for(tmpchunk=(struct TextChunk *)mm->TextChunks.First;tmpchunk;tmpchunk=tmpchunk->Next)
-      size+=tmpchunk->Length;
-
-   /* Statistics */
-
-   if((mm->Flags & MMFLAG_TOSSED) && pktcnode)
-   {
-      pktcnode->GotNetmails++;
-      pktcnode->GotNetmailBytes+=size;
-   }
-
    /* Set zones if they are zero */
 
    if(mm->DestNode.Zone == 0)
-- 
2.43.0


From 13ad458e34b73e48201cee73a8ed7369ccca3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:57 +0000
Subject: [PATCH 085/101] fix: crashstats printed all sizes in MB

---
 src/tools/crashstats.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashstats.c b/src/tools/crashstats.c
index 7e9bca3..9f1e102 100644
--- a/src/tools/crashstats.c
+++ b/src/tools/crashstats.c
@@ -274,9 +274,9 @@ bool SortNodes(struct jbList *list)
 char *unit(uint32_t i)
 {
    static char buf[40];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%d MB",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%d KB",i/1024);
-   else sprintf(buf,"%d bytes",i);
+   if (i>10000000) sprintf(buf,"%u MB",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%u KB",i/1024);
+   else sprintf(buf,"%u bytes",i);
    return buf;
 }
 
-- 
2.43.0


From 0b7e9c421ec64604b677174a920790909e985fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 086/101] fix: crashlistout read past the number when a pattern
 with ? was longer

---
 src/tools/crashlistout.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 119e5ae..c38b764 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -154,6 +154,7 @@ int NodeCompare(char *pat,uint16_t num)
    {
       if(pat[c]=='*') return(0);
       if(pat[c]!=buf[c] && pat[c]!='?') return(1);
+      if(buf[c]==0) return(1);
    }
 
    if(buf[c]!=0)
-- 
2.43.0


From 6aa52fb8034008f73a6a3d1e3a3789eca665850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 087/101] fix: crashlistout printed all sizes in MB

---
 src/tools/crashlistout.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index c38b764..4d25457 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -180,8 +180,8 @@ int Compare4DPat(struct Node4DPat *nodepat,struct Node4D *node)
 char *unit(uint32_t i)
 {
    static char buf[20];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%uM",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%uK",i/1024);
+   if (i>10000000) sprintf(buf,"%uM",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%uK",i/1024);
    else sprintf(buf,"%u",i);
    return buf;
 }
-- 
2.43.0


From 487934ca40bffdb6206a5093d919b0c0b905d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 088/101] fix: crashlistout damaged file names with 8-bit
 characters and copied overlapping strings

---
 src/tools/crashlistout.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 4d25457..d8f6dda 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -211,7 +211,7 @@ void strip(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--) 
 		str[c]=0;
 }
 
@@ -270,7 +270,7 @@ char *PrintFlowSize(struct fileentry *fe)
       if(line[0])
       {
          if(line[0] == '#' || line[0] == '^' || line[0] == '-')
-            strcpy(line,&line[1]);
+            memmove(line,&line[1],strlen(line));
       
          if(stricmp(GetFilePart(line),line) == 0)
          {
@@ -331,7 +331,7 @@ void DisplayFlowContents(struct fileentry *fe)
             if(line[0] == '-')                   todo="(To be deleted)";
 
             if(line[0] == '#' || line[0] == '^' || line[0] == '-')
-               strcpy(line,&line[1]);
+               memmove(line,&line[1],strlen(line));
       
             if(stricmp(GetFilePart(line),line) == 0)
             {
-- 
2.43.0


From 798af8b2dd659af28c3bd14f5c0363d036f41a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 089/101] fix: crashlistout showed files to be deleted as files
 to be truncated

---
 src/tools/crashlistout.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index d8f6dda..a5311de 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -327,8 +327,8 @@ void DisplayFlowContents(struct fileentry *fe)
          {
             todo="";
 
-            if(line[0] == '#' || line[0] == '^') todo="(To be truncated)";
-            if(line[0] == '-')                   todo="(To be deleted)";
+            if(line[0] == '#')                   todo="(To be truncated)";
+            if(line[0] == '^' || line[0] == '-') todo="(To be deleted)";
 
             if(line[0] == '#' || line[0] == '^' || line[0] == '-')
                memmove(line,&line[1],strlen(line));
-- 
2.43.0


From fcd6d480f39a72549494fd19c0e0e66597c77074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 090/101] fix: crashlistout reported success when the directory
 could not be read and leaked file handles

---
 src/tools/crashlistout.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index a5311de..b6e2192 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -391,6 +391,8 @@ char *PrintReqNums(struct fileentry *fe)
       }
    }
 
+   osClose(os);
+
    sprintf(buf,"-/%u",reqs);
    
    return(buf);
@@ -694,7 +696,7 @@ int main(int argc, char **argv)
 		uint32_t err=osError();
       printf("Failed to scan directory %s\n",cfg_Dir);
 		printf("Error: %s",osErrorMsg(err));		
-      return(FALSE);
+      exit(OS_EXIT_ERROR);
    }
 
    sortlist(&list);
-- 
2.43.0


From 36b87169a25798e55c8c59b4c6f08ed39d6d9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 091/101] fix: crashexport copied overlapping strings

---
 src/tools/crashexport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashexport.c b/src/tools/crashexport.c
index 5abe393..380cebe 100644
--- a/src/tools/crashexport.c
+++ b/src/tools/crashexport.c
@@ -311,7 +311,7 @@ int main(int argc, char **argv)
          while(jbstrcpy(buf,cfgbuf,100,&jbcpos))
          {
             if(buf[0]=='!' || buf[0]=='%' || buf[0]=='@')
-               strcpy(buf,&buf[1]);
+               memmove(buf,&buf[1],strlen(buf));
 
             if(Parse4DTemplate(buf,&tmp4d,&tpl4d))
             {
-- 
2.43.0


From 6eaf46729d29cbcd312a6976a90620f1579a0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 092/101] fix: crashexport reported success when the disk was
 full

---
 src/tools/crashexport.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashexport.c b/src/tools/crashexport.c
index 380cebe..8ca3d06 100644
--- a/src/tools/crashexport.c
+++ b/src/tools/crashexport.c
@@ -349,8 +349,17 @@ int main(int argc, char **argv)
    if(tagname[0])
       writearea(ofh);
 
-   osClose(ofh);
    osClose(ifh);
+
+   if(!osClose(ofh))
+   {
+		uint32_t err=osError();
+      printf("Failed to write to %s\n",(char *)args[ARG_OUTFILE].data);
+		printf("Error: %s",osErrorMsg(err));		
+      osEnd();
+      exit(OS_EXIT_ERROR);
+   }
+
    osEnd();
    
    exit(OS_EXIT_OK);
-- 
2.43.0


From a3e207a755b1981e4811a3687fcb654c928a4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:45 +0000
Subject: [PATCH 093/101] fix: V7+ nodelists were not readable where long is 64
 bits

The numbers in the index are 32 bits on disk.
---
 src/crashmail/nl_v7p.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/crashmail/nl_v7p.c b/src/crashmail/nl_v7p.c
index 407d4fb..2ed14f1 100644
--- a/src/crashmail/nl_v7p.c
+++ b/src/crashmail/nl_v7p.c
@@ -13,21 +13,21 @@
 
 struct v7p_ndxcontrol
 {
-   long indexstart;
-   long rootstart;
-   long lastblock;
-   long firstleaf;
-   long lastleaf;
-   long freelist;
+   int32_t indexstart;
+   int32_t rootstart;
+   int32_t lastblock;
+   int32_t firstleaf;
+   int32_t lastleaf;
+   int32_t freelist;
    uint16_t levels;
    uint16_t xor;
 };
 
 struct v7p_ndxindex
 {
-   long rectype;
-   long prev;
-   long next;
+   int32_t rectype;
+   int32_t prev;
+   int32_t next;
    short keycount;
    uint16_t keystart;
 };
@@ -36,15 +36,15 @@ struct v7p_ndxindexkey
 {
    uint16_t offset;
    uint16_t len;
-   long value;
-   long lower;
+   int32_t value;
+   int32_t lower;
 };
 
 struct v7p_ndxleaf
 {
-   long rectype;
-   long prev;
-   long next;
+   int32_t rectype;
+   int32_t prev;
+   int32_t next;
    short keycount;
    uint16_t keystart;
 };
@@ -53,7 +53,7 @@ struct v7p_ndxleafkey
 {
    uint16_t offset;
    uint16_t len;
-   long value;
+   int32_t value;
 };
 
 struct v7p_datheader
-- 
2.43.0


From 5e25ff9318f249d2e51fefaa9f9d8a12c5d1bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:45 +0000
Subject: [PATCH 094/101] fix: V7+ nodelists: bytes above 127 were taken as
 negative

Hubs, regions and packed names were read wrongly.
---
 src/crashmail/nl_v7p.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/crashmail/nl_v7p.c b/src/crashmail/nl_v7p.c
index 2ed14f1..72a5f7b 100644
--- a/src/crashmail/nl_v7p.c
+++ b/src/crashmail/nl_v7p.c
@@ -61,14 +61,14 @@ struct v7p_datheader
    short Zone,Net,Node,HubNode;
    short CallCost,MsgFee,NodeFlags;
 
-   char ModemType;
-   char Phone_len;
-   char Password_len;
-   char Bname_len;
-   char Sname_len;
-   char Cname_len;
-   char pack_len;
-   char BaudRate;
+   unsigned char ModemType;
+   unsigned char Phone_len;
+   unsigned char Password_len;
+   unsigned char Bname_len;
+   unsigned char Sname_len;
+   unsigned char Cname_len;
+   unsigned char pack_len;
+   unsigned char BaudRate;
 };
 
 osFile v7p_ndxfh;
@@ -179,7 +179,7 @@ bool v7p_findoffset(struct Node4D *node,uint32_t *offset)
    return(TRUE);
 }
 
-uint32_t v7p_unpack(char *dest,char *pack,uint32_t size)
+uint32_t v7p_unpack(char *dest,unsigned char *pack,uint32_t size)
 {
    uint32_t c,d;
    uint16_t w;
@@ -209,7 +209,8 @@ uint32_t v7p_unpack(char *dest,char *pack,uint32_t size)
 bool v7p_gethubregion(uint32_t datoffset,uint32_t *hub,uint32_t *region)
 {
    uint32_t dtpoffset,sum;
-   char *junk,*unpacked;
+   unsigned char *junk;
+   char *unpacked;
    int sz,d,c;
 
    osSeek(v7p_datfh,datoffset,OFFSET_BEGINNING);
-- 
2.43.0


From 4e56a688b21bbe436ac21246697835ba1f486a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:45 +0000
Subject: [PATCH 095/101] fix: damaged V7+ nodelists made crashmail read
 outside its buffers or loop

---
 src/crashmail/nl_v7p.c | 72 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/nl_v7p.c b/src/crashmail/nl_v7p.c
index 72a5f7b..7685ec8 100644
--- a/src/crashmail/nl_v7p.c
+++ b/src/crashmail/nl_v7p.c
@@ -10,6 +10,7 @@
    upper case for the rest */
 
 #define V7P_NDXBUFSIZE 512
+#define V7P_MAXLEVELS 20
 
 struct v7p_ndxcontrol
 {
@@ -105,9 +106,44 @@ int v7p_ndxcompare(char *d1,char *d2,int len)
    return Compare4D(&n1,&n2);
 }
 
+bool v7p_readblock(long recnum)
+{
+   if(recnum < 0)
+      return(FALSE);
+
+   osSeek(v7p_ndxfh,recnum*v7p_ndxrecsize,OFFSET_BEGINNING);
+
+   if(osRead(v7p_ndxfh,v7p_ndxbuf,v7p_ndxrecsize) != v7p_ndxrecsize)
+      return(FALSE);
+
+   return(TRUE);
+}
+
+/* Checks that all keys of the current block lie within it. Index and leaf
+   blocks start in the same way */
+
+bool v7p_checkkeys(int keycount,int keysize)
+{
+   int i;
+   struct v7p_ndxleafkey *key;
+
+   if(keycount < 0 || (int)sizeof(struct v7p_ndxleaf)+keycount*keysize > v7p_ndxrecsize)
+      return(FALSE);
+
+   for(i=0;i < keycount;i++)
+   {
+      key=(struct v7p_ndxleafkey *)(v7p_ndxbuf+sizeof(struct v7p_ndxleaf)+i*keysize);
+
+      if(key->offset+key->len > v7p_ndxrecsize)
+         return(FALSE);
+   }
+
+   return(TRUE);
+}
+
 bool v7p_findoffset(struct Node4D *node,uint32_t *offset)
 {
-   int i,res;
+   int i,res,levels;
    long recnum;
    struct v7p_ndxindex *v7p_ndxindex;
    struct v7p_ndxindexkey *v7p_ndxindexkey;
@@ -118,15 +154,17 @@ bool v7p_findoffset(struct Node4D *node,uint32_t *offset)
    v7p_ndxleaf=(struct v7p_ndxleaf *)v7p_ndxbuf;
 
    recnum=v7p_ndxcontrol.indexstart;
+   levels=0;
 
-   osSeek(v7p_ndxfh,recnum*v7p_ndxrecsize,OFFSET_BEGINNING);
-
-   if(osRead(v7p_ndxfh,v7p_ndxbuf,v7p_ndxrecsize) != v7p_ndxrecsize)
+   if(!v7p_readblock(recnum))
       return(FALSE);
 
    while(v7p_ndxindex->rectype != -1)
    {
-      if(v7p_ndxindex->keycount < 0)
+      if(++levels > V7P_MAXLEVELS)
+         return(FALSE); /* The blocks refer to each other in a circle */
+
+      if(!v7p_checkkeys(v7p_ndxindex->keycount,sizeof(struct v7p_ndxindexkey)))
          return(FALSE);
 
       for(i=0;i < v7p_ndxindex->keycount;i++)
@@ -147,13 +185,11 @@ bool v7p_findoffset(struct Node4D *node,uint32_t *offset)
          recnum=v7p_ndxindexkey->lower;
       }
 
-      osSeek(v7p_ndxfh,recnum*v7p_ndxrecsize,OFFSET_BEGINNING);
-
-      if(osRead(v7p_ndxfh,v7p_ndxbuf,v7p_ndxrecsize) != v7p_ndxrecsize)
+      if(!v7p_readblock(recnum))
          return(FALSE);
    }
 
-   if(v7p_ndxleaf->keycount <= 0)
+   if(!v7p_checkkeys(v7p_ndxleaf->keycount,sizeof(struct v7p_ndxleafkey)))
       return(FALSE);
 
    for(i=0;i < v7p_ndxleaf->keycount;i++)
@@ -187,7 +223,7 @@ uint32_t v7p_unpack(char *dest,unsigned char *pack,uint32_t size)
 
    d=0;
 
-   for(c=0;c<size;c+=2)
+   for(c=0;c+1<size;c+=2)
    {
       w=pack[c]+pack[c+1]*256;
 
@@ -211,7 +247,7 @@ bool v7p_gethubregion(uint32_t datoffset,uint32_t *hub,uint32_t *region)
    uint32_t dtpoffset,sum;
    unsigned char *junk;
    char *unpacked;
-   int sz,d,c;
+   uint32_t sz,d,c;
 
    osSeek(v7p_datfh,datoffset,OFFSET_BEGINNING);
 
@@ -226,6 +262,9 @@ bool v7p_gethubregion(uint32_t datoffset,uint32_t *hub,uint32_t *region)
    if(v7p_datheader.pack_len > sz)
       sz=v7p_datheader.pack_len;
 
+   if(sz < 4)
+      sz=4; /* Also used for the region and hub numbers */
+
    if(!(junk=osAlloc(sz)))
    {
       return(FALSE);
@@ -263,7 +302,7 @@ bool v7p_gethubregion(uint32_t datoffset,uint32_t *hub,uint32_t *region)
 
    sum = v7p_datheader.Bname_len + v7p_datheader.Sname_len + v7p_datheader.Cname_len;
 
-   if(d-sum < 8)
+   if(d < sum+8)
    {
       /* not v7+ */
       osFree(junk);
@@ -339,6 +378,15 @@ bool v7p_nlStart(char *errbuf)
       return(FALSE);
    }
 
+   if(v7p_ndxrecsize < sizeof(struct v7p_ndxleaf))
+   {
+      sprintf(errbuf,"V7+ nodelist \"%s\" appears to be corrupt",config.cfg_Nodelist);
+      osClose(v7p_ndxfh);
+      osClose(v7p_datfh);
+      osClose(v7p_dtpfh);
+      return(FALSE);
+   }
+
    if(v7p_ndxrecsize > V7P_NDXBUFSIZE)
    {
       sprintf(errbuf,"Record size of V7+ nodelist is too big (%d chars, max is %d chars)",v7p_ndxrecsize,V7P_NDXBUFSIZE);
-- 
2.43.0


From 9536b06e496c854598da7ca32bca8d993e89ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:54 +0000
Subject: [PATCH 096/101] fix: two instances started at the same time could
 both get the lock

---
 src/crashmail/crashmail.c | 26 +++++++++++++++++---------
 src/oslib/osfile.h        |  1 +
 src/oslib_linux/osfile.c  |  4 ++++
 src/oslib_win32/osfile.c  |  6 ++++++
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 9685185..2e9cedd 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -492,26 +492,34 @@ bool LockConfig(char *file)
 {
 	char buf[200];
 	osFile fp;
+	int failed;
 	
 	strcpy(buf,file);
 	strcat(buf,".busy");
 
-	while(osExists(buf))
+	failed=0;
+
+	/* Nobody else can create the file between the test and the creation */
+
+	while(!(fp=osOpen(buf,MODE_CREATE)))
 	{
-		printf("Configuration file %s is already in use, waiting 10 seconds...\n",file);
+		if(osExists(buf))
+		{
+			printf("Configuration file %s is already in use, waiting 10 seconds...\n",file);
 
-		osSleep(10);
+			osSleep(10);
+			failed=0;
+		}
+		else if(++failed == 5)
+		{
+			printf("Failed to create lock file %s\n",buf);
+			return(FALSE);
+		}
 
 		if(ctrlc)
 			return(FALSE);
 	}
 	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
-	{
-		printf("Failed to create lock file %s\n",buf);
-		return(FALSE);
-	}
-	
 	osClose(fp);
 
 	return(TRUE);
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 9658551..3c2b37a 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -9,6 +9,7 @@ typedef void *osFile;
 
 #define MODE_OLDFILE    1005  /* Corresponds to "rb" with fopen */
 #define MODE_NEWFILE    1006  /* Corresponds to "wb" with fopen */
+#define MODE_CREATE     1007  /* Corresponds to "wbx" with fopen, fails if the file exists */
 #define MODE_READWRITE  1004  /* Corresponds to "w+b" with fopen */
 
 #define OFFSET_BEGINNING -1
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 6a99920..4c3311c 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -17,6 +17,10 @@ osFile osOpen(char *name,uint32_t mode)
 	{
 		fh=fopen(name,"wb");
 	}
+   else if(mode == MODE_CREATE)
+	{
+		fh=fopen(name,"wbx");
+	}
    else if(mode == MODE_OLDFILE) 
 	{
 		fh=fopen(name,"rb");
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index fa56501..e4d024d 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -114,6 +114,12 @@ osFile osOpen(char *name,ulong mode)
       sharemode=0;
       creationdisposition=CREATE_ALWAYS;
 	}
+   else if(mode == MODE_CREATE)
+	{
+      desiredaccess=GENERIC_WRITE;
+      sharemode=0;
+      creationdisposition=CREATE_NEW;
+	}
    else if(mode == MODE_OLDFILE) 
 	{
       desiredaccess=GENERIC_READ;
-- 
2.43.0


From f72b2919c98133c7f494f9b9f65dfdc8243c3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:38 +0000
Subject: [PATCH 097/101] fix: long configuration file names overflowed a
 buffer or were never unlocked

---
 src/crashmail/config.c    | 4 ++--
 src/crashmail/config.h    | 2 +-
 src/crashmail/crashmail.c | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index a633e67..9edbee0 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -47,7 +47,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
    uint16_t flags;
 
    cfg->changed=FALSE;
-   mystrncpy(cfg->filename,filename,100);
+   mystrncpy(cfg->filename,filename,200);
 
    *cfgline=0;
 
@@ -2240,7 +2240,7 @@ void WriteArea(struct Area *tmparea,osFile osfh)
 
 bool UpdateConfig(struct Config *cfg,char *cfgerr)
 {
-   char cfgtemp[110],cfgbak[110];
+   char cfgtemp[210],cfgbak[210];
    char cfgword[30],buf[100];
    osFile oldfh,newfh;
    bool skiparea,skipnode,dontwrite,copyres;
diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index ee390ef..bd47e75 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -302,7 +302,7 @@ struct Filter
 struct Config
 {
    bool changed;
-   char filename[100];
+   char filename[200];
    
    char cfg_Sysop[36];
    char cfg_Inbound[100];
diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 2e9cedd..c21a8a5 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -603,6 +603,12 @@ int main(int argc, char **argv)
    if(args[ARG_SETTINGS].data)
       cfg=(char *)args[ARG_SETTINGS].data;
 
+   if(strlen(cfg) > 190)
+   {
+      printf("Name of configuration file is too long\n");
+      CleanUp(OS_EXIT_ERROR);
+   }
+
    if(args[ARG_LOCK].data)
    {
 		if(!LockConfig(cfg))
-- 
2.43.0


From 3d0cd84be8137e305f208693fc1e9486a9304434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:35 +0000
Subject: [PATCH 098/101] fix: the duplicate database was written after the
 lock had been released

---
 src/crashmail/crashmail.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c21a8a5..8b89471 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -540,12 +540,12 @@ void CleanUp(int err)
    if(done_welcomemsg)
       LogWrite(2,SYSTEMINFO,"CrashMail end");
 
-	if(done_lockconfig)
-		UnlockConfig(config.filename);
-
    if(done_init)
       Free();
 
+	if(done_lockconfig)
+		UnlockConfig(config.filename);
+
    if(done_initconfig)
       FreeConfig(&config);
 
-- 
2.43.0


From 7cd7567ff4849bf680461ba630a3dc3793cb221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:53 +0000
Subject: [PATCH 099/101] fix: a bundle with the name of one that had already
 been sent was never sent

---
 src/crashmail/outbound.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 1d833bb..06e8c27 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -523,8 +523,9 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
       eol=(buf[strlen(buf)-1]=='\n');
       striptrail(buf);
 
+      if(buf[0]=='~') continue; /* Has already been sent */
+
       if(buf[0]=='#') memmove(buf, buf + 1, strlen (buf));
-      if(buf[0]=='~') memmove(buf, buf + 1, strlen (buf));
       if(buf[0]=='^') memmove(buf, buf + 1, strlen (buf));
       if(buf[0]=='-') memmove(buf, buf + 1, strlen (buf));
 
-- 
2.43.0


From 639b60233bbe7e629f119836df897ec190ce2880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:35 +0000
Subject: [PATCH 100/101] fix: a recognition string of more than 40 characters
 was compared with memory behind the buffer

---
 src/crashmail/toss.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index bd603cc..acc9037 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -31,7 +31,7 @@ bool Compare(char *str,char *recog)
 struct Packer *DetectPacker(char *file)
 {
    osFile fh;
-   char buf[40];
+   char buf[80]; /* As long as the longest recognition string */
    struct Packer *tmppacker;
 
    if(!(fh=osOpen(file,MODE_OLDFILE)))
@@ -43,7 +43,7 @@ struct Packer *DetectPacker(char *file)
    }
 
    memset(buf,0,sizeof(buf)); /* File may be shorter than the buffer */
-   osRead(fh,buf,40);
+   osRead(fh,buf,80);
    osClose(fh);
 
    for(tmppacker=(struct Packer *)config.PackerList.First;tmppacker;tmppacker=tmppacker->Next)
-- 
2.43.0


From e15af6601954a4048f4c1f2b4bd668edbf8fbccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:08 +0000
Subject: [PATCH 101/101] fix: node patterns with an empty first number were
 filled from uninitialised memory

---
 src/crashmail/node4dpat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/node4dpat.c b/src/crashmail/node4dpat.c
index d27a0fe..3028c11 100644
--- a/src/crashmail/node4dpat.c
+++ b/src/crashmail/node4dpat.c
@@ -3,7 +3,7 @@
 bool rawParse4DPat(char *buf, struct Node4DPat *node)
 {
    uint32_t c=0,tempc=0;
-   char temp[10];
+   char temp[10]="";
    bool GotZone=FALSE,GotNet=FALSE,GotNode=FALSE;
 
    strcpy(node->Zone,"*");
@@ -315,7 +315,7 @@ bool Check4DPatNodelist(struct Node4DPat *pat)
 bool Parse2DPat(char *buf, struct Node2DPat *node)
 {
    uint32_t c=0,tempc=0;
-   char temp[10];
+   char temp[10]="";
    bool GotNet=FALSE;
 
    strcpy(node->Net,"*");
-- 
2.43.0

