# What decides each property: the obligations of all functions that the roots reach.

property C01:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  bounded = 12
  roots = Equal Makenode Apply Not Ite Exist AppEx Replace And Or Low High Ithvar NIthvar
property C02:
  thorough = hudd buddy
  roots = Apply Not And Or Imp Equiv True False
property C03:
  thorough = hudd buddy
  roots = Ite
property C04:
  thorough = hudd buddy
  roots = Exist
property C05:
  thorough = hudd buddy
  roots = AppEx AndExist
property C06:
  thorough = hudd buddy
  roots = Replace
property C11:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  bounded = 12
  roots = Makenode Apply Not Ite Exist AppEx Replace And Or (*tables).Retnode (*tables).gbc (*tables).noderesize
property C13:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  bounded = 12
  roots = Apply Not Ite Exist AppEx Replace

property C07:
  thorough = hudd buddy
  bounded = 15
  roots = NewReplacer
property C08:
  thorough = hudd buddy
  bounded = 15
  roots = Satcount
property C09:
  thorough = hudd buddy
  bounded = 15
  roots = Allsat
property C10:
  thorough = hudd buddy
  bounded = 15
  roots = Allnodes
property C12:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  select = tags
  bounded = 15
  roots = New New$1 (*tables).Retnode (*tables).gbc Low High Apply Not Ite Exist AppEx Replace And Or
property C14:
  thorough = hudd buddy
  select = tags
  bounded = 15
  roots = Apply Not Ite Exist AppEx Replace And Or Imp Equiv AndExist Low High Label Ithvar NIthvar Makeset Makecube Scanset Satcount Allsat Allnodes
property C15:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  select = tags
  bounded = 15
  roots = (*tables).makenode (*tables).noderesize Makenode Apply Not Ite Exist AppEx Replace And Or Low High Makeset Makecube
property C16:
  thorough = hudd buddy
  bounded = 15
  roots = Ithvar NIthvar True False From Label Low High Makeset Scanset Makecube
property C17:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  bounded = 15
  roots = New New$1 makeconfigs Nodesize$1 Maxnodesize$1 Maxnodeincrease$1 Minfreenodes$1 Cachesize$1 Cacheratio$1
property C18:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  select = tags
  bounded = 15
  roots = New (*tables).makenode (*tables).setnode (*tables).gbc (*tables).noderesize
property C19:
  only = bounded
  bounded = 25
  level = exploration
  roots = 
property C20:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  select = tags
  bounded = 25
  roots = New New$1 (*tables).makenode (*tables).gbc (*tables).noderesize (*tables).setnode (*tables).Retnode Apply Not Low High Allnodes
property C21:
  builds = hudd buddy:kernel
  thorough = hudd buddy
  roots = New New$1 Makenode Apply Not Ite Exist AppEx Replace And Or Equal Label Low High Ithvar NIthvar Makeset Makecube Scanset NewReplacer Satcount Allsat Allnodes True False From Imp Equiv AndExist Varnum
  bounded = 15
